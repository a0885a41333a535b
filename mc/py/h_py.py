"""Explorer of the Python bindings: the same protocol as mc.h, the choices being made in Python.

Every execution builds images, passes them through the bindings in every form the bindings take, and compares with
the library called directly.  Memory between the two is fenced (fence.c): a block touched outside its bounds or after
its release ends the process, and every execution must have released everything it had allocated, whether or not an
allocation was refused.
"""
import sys, os, mmap, struct, json, time, gc, signal, resource, ctypes, ctypes.util, itertools, array, traceback, warnings
sys.dont_write_bytecode = True

opt = dict(zip(sys.argv[1::2], sys.argv[2::2]))
TIER = opt["--tier"] == "thorough"
SHARD, NSHARDS = int(opt["--shard"]), int(opt["--nshards"])
MODE, SCRATCH = opt["--mode"], opt["--scratch"]
BUDGET, HANG = float(opt["--budget"]), int(opt["--hang"])
LIBDIR = os.environ["MC_LIBDIR"]
MAXCH = 4096

fence = ctypes.CDLL(os.path.join(LIBDIR, "libfence.so"))
find_library = ctypes.util.find_library
ctypes.util.find_library = lambda n: os.path.join(LIBDIR, "libfence.so") if n == "c" else find_library(n)
for n in ("fence_live", "fence_refused"):
    getattr(fence, n).restype = ctypes.c_long
fence.fence_arm.argtypes = [ctypes.c_long]
fence.fence_arm.restype = fence.fence_forget.restype = None

# ---- explorer ----
class Skip(Exception): pass
class Violation(BaseException): pass
fd = os.open(opt["--status"], os.O_RDWR | os.O_CREAT, 0o600)
os.ftruncate(fd, 4+4*MAXCH+4+8+256)
st = mmap.mmap(fd, 4+4*MAXCH+4+8+256)
outf = open(opt["--out"], "w")
known = {}
for l in open(opt["--known"]):
    known[l.rstrip("\n")] = 0
choices, arity, prefix = [], [], []
replay = None
if "--replay" in opt:
    replay = [int(x) for x in opt["--replay"].split(",") if x]
    prefix = replay
execs = trans = nontriv = 0
states, outcomes, samples = set(), set(), 0

def choose(n):
    i = len(choices)
    v = prefix[i] if i < len(prefix) else 0
    if v >= n:
        sys.stderr.write("mc: divergence while replaying a prefix\n"); os._exit(71)
    choices.append(v); arity.append(n)
    struct.pack_into("I", st, 4+4*i, v)
    struct.pack_into("I", st, 0, i+1)
    return v
def pick(seq):
    return seq[choose(len(seq))]
def Q(q, t):
    return t if TIER else q
def mine():
    if replay is not None or NSHARDS <= 1:
        return
    h = 1469598103934665603
    for c in choices:
        h = ((h ^ (c+1)) * 1099511628211 + 12345) & (1 << 64)-1
        h ^= h >> 29
    if h % NSHARDS != SHARD:
        raise Skip
def H(x):
    h = 1469598103934665603
    for b in repr(x).encode():
        h = ((h ^ b) * 1099511628211) & (1 << 64)-1
    return h
def trace(*a):
    if replay is not None:
        print(*a); sys.stdout.flush()
def fail(sig, msg):
    if sig in known:
        known[sig] += 1
        return
    outf.write(json.dumps({"fail": {"sig": sig, "msg": msg[:1500], "choices": list(choices)}}) + "\n")
    trace("VIOLATED", sig, msg)
    finish(1)
def check(c, sig, msg):
    if not c:
        fail(sig, msg() if callable(msg) else msg)
def step():
    global trans
    trans += 1
def sample(s):
    global samples
    if samples < 4 and execs % 37 == 0:
        samples += 1
        outf.write(json.dumps({"sample": s}) + "\n")
def finish(code):
    for k, v in known.items():
        if v:
            outf.write(json.dumps({"known": k, "hits": v}) + "\n")
    outf.write(json.dumps({"execs": execs, "trans": trans, "nontriv": nontriv, "capped": capped, "extra": [0]*8}) + "\n")
    outf.close()
    for name, s in (("states", states), ("outcomes", outcomes)):
        with open(opt["--out"] + "." + name, "wb") as f:
            array.array("Q", s).tofile(f)
    sys.stdout.flush()
    os._exit(code)
capped = 0

# ---- the library, called directly ----
F, SZ, VP, INT = ctypes.c_float, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_int
class Res(ctypes.Structure):
    _fields_ = [("index", SZ), ("confidence", F)]
class Meth(ctypes.Structure):
    _fields_ = [("name", ctypes.c_char_p), ("func", VP), ("threshold", F)]
R = ctypes.CDLL("libresdet.so")
def proto(name, res, *args):
    f = getattr(R, name); f.restype = res; f.argtypes = list(args)
    return f
P = ctypes.POINTER
c_resdetect = proto("resdetect", INT, VP, SZ, SZ, SZ, P(P(Res)), P(SZ), P(P(Res)), P(SZ), VP, VP)
c_read = proto("resdet_read_image", INT, ctypes.c_char_p, ctypes.c_char_p, P(P(F)), P(SZ), P(SZ), P(SZ))
c_open = proto("resdet_open_image", VP, ctypes.c_char_p, ctypes.c_char_p, P(SZ), P(SZ), P(P(F)), P(INT))
c_openr = proto("resdet_open_image_with_reader", VP, ctypes.c_char_p, ctypes.c_char_p, P(SZ), P(SZ), P(P(F)), P(INT))
c_close = proto("resdet_close_image", None, VP)
c_file = proto("resdetect_file", INT, ctypes.c_char_p, ctypes.c_char_p, P(P(Res)), P(SZ), P(P(Res)), P(SZ), VP, VP)
c_alloc = proto("resdet_alloc_default_parameters", VP)
c_range = proto("resdet_parameters_set_range", INT, VP, SZ)
c_thr = proto("resdet_parameters_set_threshold", INT, VP, F)
c_filt = proto("resdet_parameters_set_compression_filter", INT, VP, ctypes.c_uint8)
c_method = proto("resdet_get_method", VP, ctypes.c_char_p)
c_methods = proto("resdet_methods", P(Meth))
c_readers = proto("resdet_list_image_readers", P(ctypes.c_char_p))
c_version = proto("resdet_libversion", ctypes.c_char_p)
c_defrange = proto("resdet_default_range", SZ)
c_create = proto("resdet_create_analysis", VP, VP, SZ, SZ, VP, P(INT))
c_destroy = proto("resdet_destroy_analysis", None, VP)
cfree = fence.free
cfree.argtypes = [VP]; cfree.restype = None

def ref_params(parameters):
    """(error, parameters)"""
    if not parameters:
        return 0, None
    p = c_alloc()
    e = 0
    for key, f in (("range", c_range), ("threshold", c_thr), ("compression_filter", c_filt)):
        if key in parameters and not e:
            v = parameters[key]
            if key != "threshold" and (v < 0 or v >= 1 << (64 if key == "range" else 8)):
                e = 6
            else:
                e = f(p, v)
    if e:
        cfree(p); p = None
    return e, p
def lists(a, na, b, nb):
    out = tuple(tuple((l[i].index, l[i].confidence) for i in range(n.value)) for l, n in ((a, na), (b, nb)))
    cfree(a); cfree(b)
    return out
def ref_detect(values, n, w, h, method=None, parameters=None):
    """values: floats in rows, or None; gives ("ok", lists) or ("error", code)"""
    e, p = ref_params(parameters)
    if e:
        return "error", e
    a, b, na, nb = P(Res)(), P(Res)(), SZ(), SZ()
    d = (F*max(len(values), 1))(*values) if values is not None else None
    e = c_resdetect(d, n, w, h, a, na, b, nb, c_method(method.encode()) if method else None, p)
    cfree(p)
    if e:
        return "error", e
    return "ok", lists(a, na, b, nb)
def ref_file(path, type=None, method=None, parameters=None):
    e, p = ref_params(parameters)
    if e:
        return "error", e
    a, b, na, nb = P(Res)(), P(Res)(), SZ(), SZ()
    e = c_file(path, type, a, na, b, nb, c_method(method.encode()) if method else None, p)
    cfree(p)
    if e:
        return "error", e
    return "ok", lists(a, na, b, nb)
def ref_read(path, type=None):
    d, n, w, h = P(F)(), SZ(), SZ(), SZ()
    e = c_read(path, type, d, n, w, h)
    if e:
        return "error", e
    v = d[:n.value*w.value*h.value]
    cfree(d)
    return "ok", (n.value, w.value, h.value, v)

# ---- the bindings ----
import resdet, resdet_numpy, resdet_PIL
import numpy, PIL.Image
from pathlib import Path
assert os.path.realpath(resdet.__file__).startswith(os.path.realpath(os.environ["PYTHONPATH"].split(":")[0]))
warnings.simplefilter("ignore")
EXC = {1: MemoryError, 2: resdet.InternalError, 3: resdet.InvalidImageError, 4: resdet.UnsupportedFormatError, 5: resdet.ImageTooBigErrror,
       6: resdet.ParameterError, 7: resdet.NoImagesError}

def of(d):
    check(isinstance(d, dict) and set(d) == {"widths", "heights"}, "result", lambda: "result is %r" % (d,))
    return tuple(tuple((r.index, r.confidence) for r in d[k]) for k in ("widths", "heights"))
def attempt(f):
    """("ok", value) or ("error", code or exception)"""
    step()
    try:
        return "ok", f()
    except Exception as e:
        for c, t in EXC.items():
            if type(e) is t:
                return "error", c
        if isinstance(e, OSError) and e.errno:
            return "error", -e.errno
        if replay is not None:
            traceback.print_exc(file=sys.stdout)
        return "error", "%s: %s" % (type(e).__name__, e)
def show(o):
    k, v = o
    if k == "error":
        return "error %s" % (v,)
    return repr(v)[:700]
def same(what, got, want):
    check(got == want, "differs", lambda: "%s: gives %s, the library gives %s" % (what, show(got), show(want)))

# ---- images ----
def lcg(seed):
    x = seed & 0xffffffff
    while True:
        x = (x*1664525+1013904223) & 0xffffffff
        yield x >> 16
def content(kind, n, w, h):
    """integers 0..255 in rows, frame after frame"""
    g = lcg(kind*7919+n*131+w*17+h)
    out = []
    for f in range(n):
        src = [[next(g) & 255 for x in range(max(1, w*2//3))] for y in range(max(1, h*2//3))]
        for y in range(h):
            for x in range(w):
                if kind == 0:
                    out.append(next(g) & 255)
                elif kind == 1:   # upscaled by repetition
                    out.append(src[y*len(src)//h][x*len(src[0])//w])
                elif kind == 2:   # two values
                    out.append((next(g) >> 3) & 1)
                else:
                    out.append((x*5+y*11+f*3) & 255)
    return out
def as_pointer(v): return (F*len(v))(*v)
def forms_flat(v, n, w, h):
    a = (F*len(v))(*v)
    yield "pointer", ctypes.cast(a, P(F))
    yield "ctypes array", a
    yield "list", [float(x) for x in v]
    yield "list of int", list(v)
    yield "array", array.array("f", v)
def buffer_of(v, n, w, h):
    b = resdet.ImageBuffer.with_dimensions(w, h, n)
    for i, x in enumerate(v):
        b.data[i] = x
    return b
def forms_numpy(v, n, w, h):
    """arrays with these elements, in all sorts of layouts"""
    base = numpy.array(v, dtype=numpy.float64).reshape(n, h, w)
    shapes = [base] if n > 1 else [base, base[0]]
    for s in shapes:
        for dt in ("f4", ">f4", "f8", "i8", "u1", "u2", "i4", "f2", "u4") + (("?",) if max(v) <= 1 else ()):
            if dt == "f2" and max(v) > 2000:
                continue
            t = s.astype(dt)
            tag = "numpy %s %s" % (dt, t.shape)
            yield tag, numpy.ascontiguousarray(t)
            if dt in ("f4", "f8", "u1", ">f4"):
                yield tag + " in column order", numpy.asfortranarray(t)
                big = numpy.full([x*2+1 for x in t.shape], 77, dtype=dt)
                view = big[tuple(slice(1, 2*x+1, 2) for x in t.shape)]
                view[...] = t
                yield tag + " strided", view
                r = numpy.ascontiguousarray(t[..., ::-1])[..., ::-1]
                yield tag + " reversed columns", r
                r = numpy.ascontiguousarray(t[::-1])[::-1]
                yield tag + " reversed first axis", r
                pad = numpy.full(t.shape[:-1]+(t.shape[-1]+3,), 55, dtype=dt)
                pad[..., 1:-2] = t
                yield tag + " part of wider rows", pad[..., 1:-2]
                q = numpy.moveaxis(numpy.ascontiguousarray(numpy.moveaxis(t, 0, -1)), -1, 0)
                yield tag + " first axis innermost", q
                ro = numpy.ascontiguousarray(t); ro.setflags(write=False)
                yield tag + " read only", ro
class PathLike:
    def __init__(self, p): self.p = p
    def __fspath__(self): return self.p
    def __str__(self): return "/nowhere"
def write_pfm(path, v, n, w, h):
    with open(path, "wb") as f:
        for i in range(n):
            f.write(b"Pf\n%d %d\n-1.0\n" % (w, h) + struct.pack("<%df" % (w*h), *v[i*w*h:(i+1)*w*h]))

SIZES = [(1, 1), (2, 2), (4, 1), (1, 4), (3, 5), (7, 4), (4, 7), (26, 5), (5, 26), (30, 14)]
PARAMS = [{}, {"range": 1}, {"threshold": 0}, {"range": 1, "threshold": 0.0}, {"range": 2, "threshold": 0.3, "compression_filter": 2}, {"compression_filter": 4, "threshold": 0, "range": 1},
          {"range": 3, "threshold": 1.0}, {"threshold": 0.55, "range": 1}, {"range": 10**6}]
METHODS = [None, "sign", "mag", "orig", "zerox"]

def results_by_analysis(frames, w, h, m, pr):
    """frames: values for Analysis.analyze_image"""
    def f():
        a = resdet.Analysis(w, h, m, pr)
        for x in frames:
            a.analyze_image(x)
        return of(a.analysis_results())
    return attempt(f)

def case_detect():
    global nontriv
    w, h = pick(SIZES + ([(13, 13), (40, 3), (3, 40), (27, 26)] if TIER else []))
    n = 1+choose(Q(2, 3))
    kind = choose(Q(3, 4))
    mname = pick(METHODS)
    pr = pick(PARAMS)
    mine()
    v = content(kind, n, w, h)
    want = ref_detect(v, n, w, h, mname, pr)
    m = resdet.Method.get(mname) if mname else None
    kw = {}
    if mname: kw["method"] = m
    if pr: kw["parameters"] = pr
    what = "%dx%d, %d images, method %s, parameters %s" % (w, h, n, mname, pr)
    detect = resdet.resdetect
    for tag, x in forms_flat(v, n, w, h):
        same("resdetect of a %s, %s" % (tag, what), attempt(lambda: of(detect(x, n, w, h, **kw))), want)
    x = (F*len(v))(*v)
    same("resdetect with named arguments, " + what, attempt(lambda: of(detect(x, nimages=n, width=w, height=h, method=m, parameters=pr))), want)
    same("resdetect with positional arguments, " + what, attempt(lambda: of(detect(x, n, w, h, m, pr))), want)
    with buffer_of(v, n, w, h) as b:
        same("resdetect of an ImageBuffer, " + what, attempt(lambda: of(detect(b, **kw))), want)
        same("resdetect of an ImageBuffer, " + what, attempt(lambda: of(detect(b, m, pr))), want)
    for tag, x in forms_numpy(v, n, w, h):
        keep = x.copy()
        same("resdetect of %s, %s" % (tag, what), attempt(lambda: of(resdet_numpy.resdetect(x, **kw))), want)
        check((keep == x).all(), "argument", "resdetect changed its %s" % tag)
    # one image after another
    fr = [v[i*w*h:(i+1)*w*h] for i in range(n)]
    per = [list(forms_flat(f, 1, w, h)) for f in fr]
    for k in range(len(per[0])):
        same("Analysis of %ss, %s" % (per[0][k][0], what), results_by_analysis([p[k][1] for p in per], w, h, m, pr), want)
    bufs = [buffer_of(f, 1, w, h) for f in fr]
    same("Analysis of ImageBuffers, " + what, results_by_analysis(bufs, w, h, m, pr), want)
    for b in bufs: b.close()
    per = [list(forms_numpy(f, 1, w, h)) for f in fr]
    for k in range(min(map(len, per))):
        same("Analysis of %s, %s" % (per[0][k][0], what), results_by_analysis([p[k][1] for p in per], w, h, m, pr), want)
    # mixed
    same("Analysis of mixed images, " + what, results_by_analysis([(list(f), numpy.array(f, dtype="u1").reshape(h, w))[i & 1] for i, f in enumerate(fr)], w, h, m, pr), want)
    with resdet.Analysis(w, h, **kw) as a:
        for f in fr: a.analyze_image(f)
        same("Analysis as a context, " + what, attempt(lambda: of(a.analysis_results())), want)
        same("results again, " + what, attempt(lambda: of(a.analysis_results())), want)
    # a file
    path = os.path.join(SCRATCH, "d.pfm")
    write_pfm(path, v, n, w, h)
    wf = ref_file(os.fsencode(path), None, mname, pr)
    for tag, p in (("str", path), ("Path", Path(path)), ("PathLike", PathLike(path)), ("PathLike of bytes", PathLike(os.fsencode(path)))):
        same("resdetect_file of a %s, %s" % (tag, what), attempt(lambda: of(resdet.resdetect_file(p, **kw))), wf)
        same("resdetect of a %s, %s" % (tag, what), attempt(lambda: of(detect(p, **kw))), wf)
        def bysteps():
            b = resdet.ImageBuffer()
            with resdet.Image(p, buffer=b) as im, resdet.Analysis(im.width, im.height, **kw) as a:
                while im.read_image_frame(b):
                    a.analyze_image(b)
                return of(a.analysis_results())
        same("image and analysis of a %s, %s" % (tag, what), attempt(bysteps), wf)
    def bynumpy():
        im = resdet_numpy.Image(path)
        with resdet.Analysis(im.width, im.height, **kw) as a:
            for f in im:
                a.analyze_image(f)
            return of(a.analysis_results())
    same("images read as numpy arrays, " + what, attempt(bynumpy), wf)
    def byread():
        return of(detect(resdet.read_image(path), **kw))
    same("images read at once, " + what, attempt(byread), wf)
    def stacked():
        return of(detect(numpy.stack(list(resdet_numpy.Image(path))), **kw))
    same("images read and stacked, " + what, attempt(stacked), wf)
    def bypil():
        im = resdet_PIL.Image(path)
        with resdet.Analysis(im.width, im.height, **kw) as a:
            for f in im:
                a.analyze_image(f)
            return of(a.analysis_results())
    same("images read as PIL images, " + what, attempt(bypil), wf)
    os.unlink(path)
    outcomes.add(H((w, h, n, kind, mname, sorted(pr.items()), want)))
    if want[0] == "ok" and any(len(l) > 1 for l in want[1]):
        nontriv += 1
    sample("%s -> %s" % (what, show(want)[:200]))

def case_pil():
    """PIL images of all modes, and files of several frames"""
    global nontriv
    w, h = pick([(1, 1), (4, 7), (7, 4), (26, 5), (30, 14)])
    n = 1+choose(3)
    mode = pick(["L", "F", "1", "RGB", "RGBA", "LA", "I", "P", "I;16", "odd"])
    at = choose(n)
    mname = pick([None, "mag"])
    mine()
    pr = {"range": 1, "threshold": 0}
    m = resdet.Method.get(mname) if mname else None
    v = content(0, n, w, h)
    ims = [PIL.Image.fromarray(numpy.array(v[i*w*h:(i+1)*w*h], dtype="u1").reshape(h, w)) for i in range(n)]
    if mode == "I;16":
        ims = [PIL.Image.fromarray(numpy.array(v[i*w*h:(i+1)*w*h], dtype="u2").reshape(h, w)*7) for i in range(n)]
    elif mode == "RGB":
        ims = [PIL.Image.merge("RGB", [i, i.rotate(180), i.transpose(PIL.Image.Transpose.FLIP_LEFT_RIGHT)]) for i in ims]
    elif mode == "odd":
        if n < 2:
            return
        # the last frame is smaller, or longer, than the others
        ims[-1] = ims[-1].crop((0, 0, max(1, w-1), h+1))
    else:
        ims = [i.convert(mode) for i in ims]
    singles = ims
    if n > 1:
        path = os.path.join(SCRATCH, "p.tif")
        ims[0].save(path, save_all=True, append_images=ims[1:])
        image = PIL.Image.open(path)
        singles = []
        for i in range(n):
            image.seek(i)
            singles.append(image.copy())
        image.seek(at)
    else:
        image = ims[0]
    fl = [numpy.array(s.convert("F")) for s in singles[at:]]
    w, h = image.size
    if any(f.shape != (h, w) for f in fl):
        want = ("error", 3)
    else:
        want = ref_detect([x for f in fl for x in f.ravel()], len(fl), w, h, mname, pr)
        same("Analysis of PIL images, mode %s" % mode, results_by_analysis(singles[at:], w, h, m, pr), want)
    kw = {"method": m} if mname else {}
    what = "resdetect of a PIL image of mode %s, %dx%d, %d frames from %d" % (mode, w, h, n, at)
    same(what, attempt(lambda: of(resdet_PIL.resdetect(image, parameters=pr, **kw))), want)
    check(image.tell() == at, "position", what + ": the image is left at frame %d" % image.tell())
    same(what + ", again", attempt(lambda: of(resdet_PIL.resdetect(image, m, pr))), want)
    image.close()
    outcomes.add(H((w, h, n, mode, at, mname, want)))
    nontriv += 1
    sample(what)

def expect_frame(got, want, w, h, what):
    if want is None:
        check(got is None, "frame", lambda: "%s: gives %r after the last frame" % (what, got))
        return
    check(got is not None, "frame", lambda: "%s: no image" % what)
    if isinstance(got, PIL.Image.Image):
        check(got.size == (w, h), "frame", lambda: "%s: size %r, not %dx%d" % (what, got.size, w, h))
        got = numpy.array(got)
    check(isinstance(got, numpy.ndarray) and got.shape == (h, w) and got.dtype == numpy.float32, "frame", lambda: "%s: an array of shape %r, not %r" % (what, got.shape, (h, w)))
    check(got.ravel().tolist() == want, "frame", lambda: "%s: pixels differ" % what)

def case_image():
    """reading and seeking"""
    global nontriv
    w, h = pick([(1, 1), (2, 3), (5, 2)])
    n = choose(4)
    api = choose(5)
    how = choose(4)
    ops = ["read", "seek0", "seek1", "seek2", "seekp", "keep", "next"][:5 if api < 3 else 7]
    seq = []
    for i in range(Q(3, 5)):
        k = choose(len(ops)+1)
        if k == 0:
            break
        seq.append(ops[k-1])
        if i == 1:
            mine()
    if len(seq) < 2:
        mine()
    v = [x*0.5-20 for x in content(0, n, w, h)]
    # the extension tells nothing, a type or reader does
    path = os.path.join(SCRATCH, "i.pfm" if how < 2 else "i.bin")
    write_pfm(path, v, n, w, h)
    args = [dict(filename=path), dict(filename=Path(path)), dict(filename=path, type="pfm"), dict(filename=path, image_reader="PFM")][how]
    e, d = ref_read(os.fsencode(path), b"pfm")
    frames = [d[3][i*w*h:(i+1)*w*h] for i in range(n)] if n else []
    if n:
        check(e == "ok" and d[0] == n, "harness", "the reference cannot read its file")
    buf = None
    def opening():
        nonlocal buf
        if api == 0:
            buf = resdet.ImageBuffer()
            return resdet.Image(buffer=buf, **args)
        if api == 1:
            im = resdet.Image(**args)
            buf = resdet.ImageBuffer.with_dimensions(im.width, im.height)
            return im
        if api == 2:
            # a buffer that has held another image
            buf = resdet.ImageBuffer.with_dimensions(3, 1, 2)
            return resdet.Image(buffer=buf, **args)
        return (resdet_numpy if api == 3 else resdet_PIL).Image(**args)
    what = "%dx%d, %d frames, %s" % (w, h, n, seq)
    kind, im = attempt(opening)
    if not n:
        check((kind, im) == ("error", 3), "open", lambda: "an empty file gives %s" % (show((kind, im)),))
        if api == 2:
            check(buf.shape() == (2, 1, 3), "buffer", "opening an invalid image changes the buffer")
        os.unlink(path)
        return
    check(kind == "ok", "open", lambda: "%s: error %s" % (what, im))
    check((im.width, im.height) == (w, h), "size", lambda: "%s: opens as %dx%d" % (what, im.width, im.height))
    if api == 0 or api == 2:
        check(buf.shape() == (h, w) and buf.nimages == 1, "size", lambda: "%s: buffer of shape %r" % (what, buf.shape()))
    pos, kept = 0, []
    for o in seq:
        states.add(H((w, h, n, api, pos, o)))
        if o in ("read", "keep", "next"):
            want = frames[pos] if pos < n else None
            pos += pos < n
            if api < 3:
                k, r = attempt(lambda: im.read_image_frame(buf))
                check(k == "ok" and bool(r) == (want is not None), "read", lambda: "%s: reading gives %s" % (what, show((k, r))))
                if want is not None:
                    check(list(buf) == want, "frame", lambda: "%s: pixels differ" % what)
                    check(buf.shape() == (h, w), "frame", lambda: "%s: shape %r" % (what, buf.shape()))
                    for y in range(h):
                        for x in range(w):
                            check(buf[y, x] == want[y*w+x] == buf[0, y, x], "frame", lambda: "%s: pixel %d,%d differs" % (what, x, y))
            else:
                def rd():
                    if o == "next":
                        try: return next(im)
                        except StopIteration: return None
                    return im.read_image_frame_as_ndarray() if api == 3 or o == "keep" else im.read_image_frame_as_pil_image()
                k, r = attempt(rd)
                check(k == "ok", "read", lambda: "%s: reading gives error %s" % (what, r))
                expect_frame(r, want, w, h, what)
                kept.append((r, want))
        else:
            off = {"seek0": 0, "seek1": 1, "seek2": 2, "seekp": 1}[o]
            seen = []
            k, r = attempt(lambda: im.seek_frame(off, seen.append) if o == "seekp" or o == "seek2" else im.seek_frame(off))
            ok = pos+off <= n
            check(k == "ok" and bool(r) == ok, "seek", lambda: "%s: seeking gives %s" % (what, show((k, r))))
            if ok and (o == "seekp" or o == "seek2"):
                check(seen == list(range(1, off+1)), "progress", lambda: "%s: progress %r" % (what, seen))
            if not ok:
                pos = n
                break
            pos += off
    # earlier images are not overwritten by later ones
    for r, want in kept:
        expect_frame(r, want, w, h, what + ", kept")
    im.close_image()
    k, r = attempt(lambda: im.read_image_frame(buf if api < 3 else im.buffer))
    check((k, r) == ("error", 6), "closed", lambda: "%s: reading a closed image gives %s" % (what, show((k, r))))
    k, r = attempt(lambda: im.seek_frame(1))
    check((k, r) == ("error", 6), "closed", lambda: "%s: seeking in a closed image gives %s" % (what, show((k, r))))
    im.close_image()
    for r, want in kept:
        expect_frame(r, want, w, h, what + ", kept")
    os.unlink(path)
    outcomes.add(H((w, h, n, api, how, seq)))
    nontriv += len(seq) > 0
    sample(what)

def case_buffer():
    """every index of an ImageBuffer"""
    global nontriv
    w, h, n = 1+choose(Q(3, 4)), 1+choose(Q(3, 4)), 1+choose(3)
    src = choose(2)
    mine()
    v = content(0, n, w, h)
    if src:
        path = os.path.join(SCRATCH, "b.pfm")
        write_pfm(path, v, n, w, h)
        b = resdet.read_image(path) if choose(2) else resdet.read_image(Path(path), "pfm")
        v = [int(x) for x in ref_read(os.fsencode(path))[1][3]]
        os.unlink(path)
    else:
        b = buffer_of(v, n, w, h)
    what = "buffer of %d images of %dx%d" % (n, w, h)
    check((b.width, b.height, b.nimages) == (w, h, n), "size", lambda: "%s: says %r" % (what, (b.width, b.height, b.nimages)))
    check(tuple(b.shape()) == ((n, h, w) if n > 1 else (h, w)), "size", lambda: "%s: shape %r" % (what, b.shape()))
    total = w*h*n
    def at(i):
        step()
        try:
            return b[i]
        except IndexError:
            return "IndexError"
        except Exception as e:
            return type(e).__name__
    for i in list(range(-total-3, total+4)) + [-1000, 1000, 1 << 40, -(1 << 40)]:
        g = at(i)
        check(g == (v[i] if 0 <= i < total else "IndexError"), "index", lambda: "%s: element %d is %r" % (what, i, g))
    for y in range(-2, h+3):
        for x in range(-2, w+3):
            g = at((y, x))
            check(g == (v[y*w+x] if 0 <= y < h and 0 <= x < w else "IndexError"), "index", lambda: "%s: element %d,%d is %r" % (what, y, x, g))
            for f in range(-2, n+3):
                g = at((f, y, x))
                check(g == (v[(f*h+y)*w+x] if 0 <= y < h and 0 <= x < w and 0 <= f < n else "IndexError"), "index", lambda: "%s: element %d,%d,%d is %r" % (what, f, y, x, g))
    for i in ((0, 0, 0, 0), (0, 0, 0, 0, 0), ()):
        g = at(i)
        check(isinstance(g, str), "index", lambda: "%s: element %r is %r" % (what, i, g))
    check(list(b) == v, "index", lambda: "%s: iterates as %r" % (what, list(b)))
    a = numpy.ctypeslib.as_array(b.data, shape=b.shape())
    check(a.ravel().tolist() == v, "index", lambda: "%s: as array %r" % (what, a.tolist()))
    del a
    for _ in range(2):
        b.close()
        check(isinstance(at(0), str), "closed", lambda: "%s: closed, but has elements" % what)
        k, r = attempt(lambda: of(resdet.resdetect(b)))
        check((k, r) == ("error", 6), "closed", lambda: "%s: resdetect of a closed buffer gives %s" % (what, show((k, r))))
        with resdet.Analysis(w, h) as an:
            k, r = attempt(lambda: an.analyze_image(b))
            check((k, r) == ("error", 6), "closed", lambda: "%s: analysis of a closed buffer gives %s" % (what, show((k, r))))
    outcomes.add(H((w, h, n, src)))
    nontriv += 1
    sample(what)

ERRORS = None
def case_error():
    """the library's errors and bad arguments as exceptions"""
    global ERRORS, nontriv
    D = SCRATCH
    g = os.path.join(D, "good.pfm")
    bad = os.path.join(D, "bad.pfm")
    emp = os.path.join(D, "empty.pgm")
    unk = os.path.join(D, "file.unknown")
    dirn = os.path.join(D, "dir.pfm")
    odd = os.path.join(D.encode(), b"\xff\xfe n\xc3\xa9.pfm")
    if ERRORS is None:
        write_pfm(g, content(0, 2, 5, 3), 2, 5, 3)
        open(bad, "wb").write(b"Pf\n5 3\n-1.0\n" + b"\0"*10)
        open(emp, "wb").close()
        open(unk, "wb").write(b"nothing")
        os.mkdir(dirn)
        write_pfm(odd, content(1, 1, 5, 3), 1, 5, 3)
        ERRORS = True
    # longer than names can be, no file, a directory, a file as a directory
    names = [g, bad, emp, unk, dirn, os.fsdecode(odd), os.path.join(D, "none.pfm"), os.path.join(D, "none"), os.path.join(g, "x.pfm"), os.path.join(D, "n"*300 + ".pfm"), os.path.join(D, "none.unknown")]
    fam = choose(7)
    if fam in (0, 1, 2):
        name, typ = pick(names), pick([None, "pfm", "pgm", "y4m", "nope", "image/x-portable-floatmap"])
        mine()
        p = os.fsencode(name)
        t = typ.encode() if typ else None
        if fam == 0:
            a, b, na, nb = P(Res)(), P(Res)(), SZ(), SZ()
            want = ref_file(p, t)
            got = attempt(lambda: of(resdet.resdetect_file(name, typ)))
            same("resdetect_file(%r, %r)" % (name, typ), got, want)
            same("resdetect(%r, type=%r)" % (name, typ), attempt(lambda: of(resdet.resdetect(name, type=typ))), want)
        elif fam == 1:
            want = ref_read(p, t)
            def f():
                b = resdet.read_image(name, type=typ)
                return b.nimages, b.width, b.height, list(b)
            got = attempt(f)
            same("read_image(%r, %r)" % (name, typ), got, want)
        else:
            w, h, e = SZ(), SZ(), INT()
            r = c_open(p, t, w, h, None, e)
            want = ("ok", (w.value, h.value)) if r else ("error", e.value)
            c_close(r)
            for mod in (resdet, resdet_numpy, resdet_PIL):
                def f():
                    im = mod.Image(name, type=typ)
                    return im.width, im.height
                got = attempt(f)
                same("%s.Image(%r, %r)" % (mod.__name__, name, typ), got, want)
        outcomes.add(H((fam, name, typ, want)))
    elif fam == 3:
        name, reader = pick(names), pick(["PGM", "PFM", "Y4M", "libpng", "nope", "pfm"])
        mine()
        w, h, e = SZ(), SZ(), INT()
        r = c_openr(os.fsencode(name), reader.encode(), w, h, None, e)
        want = ("ok", (w.value, h.value)) if r else ("error", e.value)
        c_close(r)
        def f():
            im = resdet.Image(name, image_reader=reader)
            return im.width, im.height
        same("Image(%r, image_reader=%r)" % (name, reader), attempt(f), want)
        outcomes.add(H((fam, name, reader, want)))
    elif fam == 4:
        # sizes
        n, w, h = pick([0, 1, 2, 1 << 62]), pick([0, 1, 2, 3, 65536, 1 << 31, 1 << 32, 1 << 63]), pick([0, 1, 3, 65537, 1 << 33, (1 << 64)-1])
        null = choose(2)
        mine()
        if w*h*n > 100 and w*h <= 1 << 31:
            return      # would be read
        v = content(0, 2, 3, 3)
        want = ref_detect(None if null else v, n, w, h)
        for x in (P(F)(),) if null else ((F*len(v))(*v), list(v), array.array("f", v)):
            same("resdetect of %d images of %dx%d" % (n, w, h), attempt(lambda: of(resdet.resdetect(x, n, w, h))), want)
        e = INT()
        a = c_create(None, w, h, None, e)
        c_destroy(a)
        k, r = attempt(lambda: resdet.Analysis(w, h))
        check((k == "ok") == bool(a) and (k == "ok" or r == e.value), "differs", lambda: "Analysis(%d,%d) gives %s, the library %d" % (w, h, show((k, r)), e.value))
        outcomes.add(H((n, w, h, want)))
    elif fam == 5:
        # parameters
        pr = {}
        rg = pick(["-", 0, 1, 2, 3, -1, 1 << 64, (1 << 64)+1, (1 << 64)-1])
        th = pick(["-", 0, 1, 0.3, -0.5, 1.5, float("nan"), float("inf"), -1e-40])
        cf = pick(["-", 0, 1, 2, 3, 4, 8, 16, 255, 256, 258, -1, -254])
        if rg != "-": pr["range"] = rg
        if th != "-": pr["threshold"] = th
        if cf != "-": pr["compression_filter"] = cf
        extra = choose(2)
        mine()
        v = content(1, 1, 9, 7)
        want = ref_detect(v, 1, 9, 7, None, pr)
        if extra:
            pr["ranges"] = 1
        path = os.path.join(D, "g.pfm")
        write_pfm(path, v, 1, 9, 7)
        wf = ref_file(os.fsencode(path), None, None, {k: x for k, x in pr.items() if k != "ranges"})
        keep = repr(pr)
        for tag, f, wn in (("resdetect of a list", lambda: of(resdet.resdetect(list(v), 1, 9, 7, parameters=pr)), want),
                       ("resdetect of an array", lambda: of(resdet_numpy.resdetect(numpy.array(v, dtype="u1").reshape(7, 9), parameters=pr)), want),
                       ("resdetect of a PIL image", lambda: of(resdet_PIL.resdetect(PIL.Image.fromarray(numpy.array(v, dtype="u1").reshape(7, 9)), parameters=pr)), want),
                       ("resdetect_file", lambda: of(resdet.resdetect_file(path, parameters=pr)), wf)):
            got = attempt(f)
            if extra:
                check(got[0] == "error", "parameters", lambda: "%s accepts the parameters %r" % (tag, pr))
            else:
                same("%s, parameters %r" % (tag, pr), got, wn)
        k, r = attempt(lambda: resdet.Analysis(9, 7, parameters=pr))
        check((k, r) == want if want[0] == "error" and not extra else (k == "error") == bool(extra), "parameters", lambda: "Analysis with parameters %r gives %s" % (pr, show((k, r))))
        check(repr(pr) == keep, "argument", lambda: "parameters %s changed to %r" % (keep, pr))
        outcomes.add(H((keep, want)))
    else:
        mine()
        # what the library says about itself
        ms = c_methods()
        want, i = [], 0
        while ms[i].name:
            want.append((ms[i].name.decode(), ms[i].threshold)); i += 1
        got = [(m.name, m.threshold) for m in resdet.methods()]
        check(got == want, "methods", lambda: "methods() gives %r, not %r" % (got, want))
        for m in resdet.methods():
            g2 = resdet.Method.get(m.name)
            check((g2.name, g2.threshold) == (m.name, m.threshold), "methods", lambda: "Method.get(%r) gives %r" % (m.name, (g2.name, g2.threshold)))
            v = content(1, 1, 9, 7)
            wd = ref_detect(v, 1, 9, 7, m.name, {"range": 1})
            for x in (m, g2):
                same("method %s" % m.name, attempt(lambda: of(resdet.resdetect(list(v), 1, 9, 7, x, {"range": 1}))), wd)
                same("method %s" % m.name, results_by_analysis([list(v)], 9, 7, x, {"range": 1}), wd)
        for nm in ("nope", "Sign", "sig", "signs"):
            check(resdet.Method.get(nm) is None, "methods", lambda: "Method.get(%r) exists" % nm)
        check(resdet.default_range() == c_defrange(), "default_range", lambda: "default_range() is %d" % resdet.default_range())
        check(resdet.libversion() == c_version().decode(), "libversion", lambda: "libversion() is %r" % resdet.libversion())
        rd, i, want = c_readers(), 0, []
        while rd[i]:
            want.append(rd[i].decode()); i += 1
        check(list(resdet.list_image_readers()) == want, "readers", lambda: "list_image_readers() gives %r, not %r" % (resdet.list_image_readers(), want))
        outcomes.add(H("self"))
    nontriv += 1
    sample("error family %d" % fam)

def case_life():
    """sequences of operations on an image, a buffer and an analysis, with an allocation refused or not"""
    global nontriv
    ops = ["open", "openbuf", "open2", "read", "seek", "closeimg", "newbuf", "closebuf", "create", "analyze", "results", "destroy", "detect", "delbuf", "delimg", "readall"]
    depth = Q(3, 4)
    seq = []
    pre = choose(2)     # from nothing, or from everything
    for i in range(depth):
        seq.append(pick(ops))
        if i == 1:
            mine()
    k = pick([-1] + list(range(Q(6, 9)))) # which allocation is refused
    w, h = 4, 3
    path = os.path.join(SCRATCH, "l.pfm")
    v = content(0, 2, w, h)
    if not os.path.exists(path):
        write_pfm(path, v, 2, w, h)
        # another size
        write_pfm(os.path.join(SCRATCH, "l2.pfm"), content(0, 2, 7, 2), 2, 7, 2)
    rd = ref_read(os.fsencode(path))[1][3]
    fr = [rd[:w*h], rd[w*h:]]
    o2 = os.path.join(SCRATCH, "l2.pfm")
    rd2 = ref_read(os.fsencode(o2))[1][3]
    im = buf = an = None
    S = {"im": None, "buf": None, "an": None}   # model: im: (w,h,pos) or "closed"; buf: (w,h,contents or None) or "closed" or "empty"; an: list of frames or "closed"
    if pre:
        buf = resdet.ImageBuffer(); im = resdet.Image(path, buffer=buf); an = resdet.Analysis(w, h)
        im.read_image_frame(buf)
        S = {"im": [w, h, 1], "buf": [w, h, fr[0]], "an": []}
    fence.fence_arm(k)
    done = []
    refused = 0
    for o in seq:
        done.append(o)
        before = fence.fence_refused()
        what = "%s, allocation %d refused" % (done, k)
        want = None
        if o in ("open", "open2", "openbuf"):
            f, ww, hh = (path, w, h) if o != "open2" else (o2, 7, 2)
            if o == "openbuf" or o == "open2":
                if buf is None:
                    buf = resdet.ImageBuffer(); S["buf"] = "empty"
                got = attempt(lambda: resdet.Image(f, buffer=buf))
            else:
                got = attempt(lambda: resdet.Image(f))
            if fence.fence_refused() > before:
                want = ("error", 1)
            else:
                check(got[0] == "ok", "life", lambda: "%s: opening gives %s" % (what, show(got)))
                im = got[1]
                S["im"] = [ww, hh, 0]
                if o != "open":
                    S["buf"] = [ww, hh, None]
        elif o == "newbuf":
            got = attempt(lambda: resdet.ImageBuffer.with_dimensions(w, h))
            if fence.fence_refused() > before:
                want = ("error", 1)
            else:
                check(got[0] == "ok", "life", lambda: "%s: allocating gives %s" % (what, show(got)))
                buf = got[1]
                for i, x in enumerate(fr[1]): buf.data[i] = x
                S["buf"] = [w, h, fr[1]]
        elif o in ("read", "readall"):
            if im is None or buf is None: continue
            if S["im"] != "closed" and isinstance(S["buf"], list) and S["im"][:2] != S["buf"][:2]:
                continue        # not the buffer of this image: what the caller must not do
            for _ in range(1 if o == "read" else 3):
                before = fence.fence_refused()
                got = attempt(lambda: bool(im.read_image_frame(buf)))
                if S["im"] == "closed" or not isinstance(S["buf"], list):
                    want = ("error", 6)
                elif fence.fence_refused() > before:
                    want = ("error", 1); S["im"][2] = 99; break
                else:
                    ok = S["im"][2] < 2
                    want = ("ok", ok)
                    if S["im"][2] == 99: want = got
                    elif ok:
                        vv = fr[S["im"][2]] if S["im"][0] == w else rd2[S["im"][2]*14:][:14]
                        check(list(buf) == vv, "life", lambda: "%s: pixels differ" % what)
                        S["buf"][2] = vv
                        S["im"][2] += 1
        elif o == "seek":
            if im is None: continue
            got = attempt(lambda: bool(im.seek_frame(1)))
            if S["im"] == "closed": want = ("error", 6)
            elif fence.fence_refused() > before: want = ("error", 1); S["im"][2] = 99
            elif S["im"][2] == 99: want = got
            else:
                want = ("ok", S["im"][2] < 2)
                S["im"][2] = min(2, S["im"][2]+1)
        elif o == "closeimg":
            if im is None: continue
            got = attempt(im.close_image); want = ("ok", None); S["im"] = "closed"
        elif o == "closebuf":
            if buf is None: continue
            got = attempt(buf.close); want = ("ok", None); S["buf"] = "closed" if S["buf"] != "empty" else "empty"
        elif o == "delbuf":
            buf = None; S["buf"] = None; got = want = None
        elif o == "delimg":
            im = None; S["im"] = None; got = want = None
        elif o == "create":
            got = attempt(lambda: resdet.Analysis(w, h, parameters={"range": 1, "threshold": 0}))
            if fence.fence_refused() > before: want = ("error", 1)
            else:
                check(got[0] == "ok", "life", lambda: "%s: creating an analysis gives %s" % (what, show(got)))
                an = got[1]; S["an"] = []; S["p"] = 1
        elif o == "analyze":
            if an is None or buf is None: continue
            if isinstance(S["buf"], list) and (S["buf"][:2] != [w, h] or S["buf"][2] is None): continue
            got = attempt(lambda: an.analyze_image(buf))
            if S["an"] == "closed" or not isinstance(S["buf"], list): want = ("error", 6)
            elif fence.fence_refused() > before: want = ("error", 1)
            else:
                want = ("ok", None); S["an"].append(S["buf"][2])
        elif o == "results":
            if an is None: continue
            got = attempt(lambda: of(an.analysis_results()))
            refusedn = fence.fence_refused() > before
            if S["an"] == "closed": want = ("error", 6)
            elif refusedn: want = ("error", 1)
            else:
                fence.fence_arm(-1)     # the reference is not refused anything; the count starts again
                want = ref_detect([x for f in S["an"] for x in f], len(S["an"]), w, h, None, {"range": 1, "threshold": 0} if S.get("p") else {})
        elif o == "destroy":
            if an is None: continue
            got = attempt(an.destroy_analysis); want = ("ok", None); S["an"] = "closed"
        elif o == "detect":
            if buf is None: continue
            if isinstance(S["buf"], list) and S["buf"][2] is None: continue
            if S["buf"] == "empty": continue
            got = attempt(lambda: of(resdet.resdetect(buf, parameters={"range": 1, "threshold": 0})))
            if fence.fence_refused() > before: want = ("error", 1)
            elif not isinstance(S["buf"], list): want = ("error", 6)
            else:
                fence.fence_arm(-1)
                want = ref_detect(S["buf"][2], 1, S["buf"][0], S["buf"][1], None, {"range": 1, "threshold": 0})
        refused += fence.fence_refused() > before
        if want is not None:
            check(got == want, "life", lambda: "%s: %s gives %s instead of %s" % (what, o, show(got), show(want)))
        states.add(H((o, S["im"] if not isinstance(S["im"], list) else tuple(S["im"]), type(S["buf"]).__name__, len(S["an"]) if isinstance(S["an"], list) else S["an"])))
    got = None
    fence.fence_arm(-1)
    order = choose(3)
    if order == 0: del im; del buf; del an
    elif order == 1: del an; del buf; del im
    else:
        if im: im.close_image()
        if buf: buf.close()
        if an: an.destroy_analysis()
    outcomes.add(H((seq, k, pre)))
    nontriv += refused > 0
    sample("%s, allocation %d refused" % (seq, k))

def case_oom():
    """every allocation of every call refused"""
    global nontriv
    what = pick(["list", "array", "buffer", "numpy", "pil", "file", "str", "read", "image", "imagebuf", "numpyimage", "pilimage", "analysis", "withdim"])
    pr = pick([None, {"range": 1, "threshold": 0, "compression_filter": 2}])
    m = pick([None, "orig", "zerox"])
    mine()
    w, h, n = 6, 5, 2
    v = content(0, n, w, h)
    path = os.path.join(SCRATCH, "o.pfm")
    if not os.path.exists(path):
        write_pfm(path, v, n, w, h)
    kw = {"parameters": pr} if pr else {}
    if m: kw["method"] = resdet.Method.get(m)
    fixed = buffer_of(v, n, w, h)
    arr = numpy.array(v, dtype="f4").reshape(n, h, w)
    pim = PIL.Image.fromarray(arr[0])
    def run():
        if what == "list": return of(resdet.resdetect(list(v), n, w, h, **kw))
        if what == "array": return of(resdet.resdetect(array.array("f", v), n, w, h, **kw))
        if what == "buffer": return of(resdet.resdetect(fixed, **kw))
        if what == "numpy": return of(resdet_numpy.resdetect(arr, **kw))
        if what == "pil": return of(resdet_PIL.resdetect(pim, **kw))
        if what == "file": return of(resdet.resdetect_file(path, **kw))
        if what == "str": return of(resdet.resdetect(path, **kw))
        if what == "read": return list(resdet.read_image(path))
        if what == "image":
            with resdet.Image(path) as im, resdet.ImageBuffer.with_dimensions(w, h) as b:
                out = []
                while im.read_image_frame(b): out += list(b)
                return out
        if what == "imagebuf":
            with resdet.ImageBuffer() as b, resdet.Image(path, buffer=b) as im:
                out = []
                while im.read_image_frame(b): out += list(b)
                return out
        if what == "numpyimage": return [a.tolist() for a in resdet_numpy.Image(path)]
        if what == "pilimage": return [numpy.array(a).tolist() for a in resdet_PIL.Image(path)]
        if what == "analysis": return results_by_analysis([arr[0], list(v[w*h:])], w, h, kw.get("method"), pr or {})
        if what == "withdim": return resdet.ImageBuffer.with_dimensions(w, h, n).shape()
    ok = attempt(run)
    base = fence.fence_live()
    for k in range(200):
        for _ in range(1):
            fence.fence_arm(k)
            got = attempt(run)
            hit = fence.fence_refused()
            fence.fence_arm(-1)
            if what == "analysis" and got[0] == "ok": got = got[1]
            okk = ok[1] if what == "analysis" else ok
            if hit:
                check(got == ("error", 1), "refused", lambda: "%s with allocation %d refused gives %s" % (what, k, show(got)))
                nontriv += 1
            else:
                check(got == okk, "refused", lambda: "%s gives %s, then %s" % (what, show(okk), show(got)))
            check(fence.fence_live() == base, "leak", lambda: "%s with allocation %d refused leaves %d blocks allocated" % (what, k, fence.fence_live()-base))
        outcomes.add(H((what, k, bool(hit), m, pr)))
        if not hit:
            break
    check(k < 199, "harness", "no end of allocations")
    fixed.close()
    sample("%s with each of %d allocations refused" % (what, k))

CASES = {"detect": case_detect, "pil": case_pil, "image": case_image, "buffer": case_buffer, "error": case_error, "life": case_life, "oom": case_oom}

def fds():
    # a descriptor left open takes the lowest number
    n = os.dup(0)
    os.close(n)
    return n

def unraisable(u):
    fail("destructor", "an exception is ignored: %s: %s in %r" % (type(u.exc_value).__name__, u.exc_value, u.object))
sys.unraisablehook = unraisable

def main():
    global execs, prefix, capped
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    case = CASES[MODE]
    t0 = time.monotonic()
    hang = [-1, 0.0, 0.0]
    def tick(s, f):
        if execs != hang[0]:
            hang[:] = [execs, time.process_time(), time.monotonic()]
        elif time.process_time()-hang[1] > HANG or time.monotonic()-hang[2] > HANG*4:
            sys.stderr.write("mc: hang\n"); os._exit(72)
    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 2, 2)
    gc.collect()
    # the interpreter's first encounter with things opens files and allocates
    while True:
        choices.clear(); arity.clear()
        struct.pack_into("I", st, 0, 0)
        live, nfd = fence.fence_live(), fds()
        try:
            case()
            execs += 1
            if fence.fence_live() != live or fds() != nfd:
                gc.collect()
            check(fence.fence_live() == live, "leak", lambda: "%d blocks are still allocated" % (fence.fence_live()-live))
            check(fds() == nfd, "leak", lambda: "%s are still open" % os.listdir('/proc/self/fd'))
        except Skip:
            pass
        except Exception as e:
            traceback.print_exc()
            fail("exception", "%s: %s" % (type(e).__name__, e))
        if replay is not None:
            break
        if execs & 15 == 0 and time.monotonic()-t0 > BUDGET:
            capped = 1
            break
        while choices and choices[-1]+1 >= arity[-1]:
            choices.pop(); arity.pop()
        if not choices:
            break
        choices[-1] += 1
        prefix = list(choices)
    finish(0)

main()
