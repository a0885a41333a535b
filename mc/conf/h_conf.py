"""Explorer of the ways the library can be configured, built, installed and linked (C28)."""
import sys, os, shutil, subprocess, re, base64, struct, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import explore as X
HERE, REPO = os.path.dirname(os.path.abspath(__file__)), os.environ["MC_REPO"]
ENV = {"PATH": os.environ["PATH"], "HOME": X.SCRATCH, "TMPDIR": X.SCRATCH, "LC_ALL": "C", "CC": "gcc", "CFLAGS": "-O0 -w -Wno-error", "GIT_CEILING_DIRECTORIES": "/tmp:" + os.path.dirname(X.SCRATCH)}

pristine = os.path.join(X.SCRATCH, "src")
def prepare():
    if os.path.isdir(pristine):
        return
    os.makedirs(pristine)
    for f in ("configure", "Makefile"):
        shutil.copy(os.path.join(REPO, f), pristine)
    for d in ("include", "lib", "src"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(pristine, d), ignore=shutil.ignore_patterns("*.o", "*.d", "*.a", "*.so*", "resdet.pc"))

JPEG = "/9j/4AAQSkZJRgABAQAAAQABAAD/2wBDAAEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQEBAQH/wAALCAAKAAwBAREA/8QAHwAAAQUBAQEBAQEAAAAAAAAAAAECAwQFBgcICQoL/8QAtRAAAgEDAwIEAwUFBAQAAAF9AQIDAAQRBRIhMUEGE1FhByJxFDKBkaEII0KxwRVS0fAkM2JyggkKFhcYGRolJicoKSo0NTY3ODk6Q0RFRkdISUpTVFVWV1hZWmNkZWZnaGlqc3R1dnd4eXqDhIWGh4iJipKTlJWWl5iZmqKjpKWmp6ipqrKztLW2t7i5usLDxMXGx8jJytLT1NXW19jZ2uHi4+Tl5ufo6erx8vP09fb3+Pn6/9oACAEBAAA/AP5l6KKK/9k="
def images(d):
    """a 12x10 image of one grey, in each format that has a reader of its own"""
    os.makedirs(d)
    chunk = lambda t, b: struct.pack(">I", len(b)) + t + b + struct.pack(">I", zlib.crc32(t+b))
    r = {"pgm": b"P5 12 10 255\n" + b"\x33"*120,
         "pfm": b"Pf\n12 10\n-1.0\n" + struct.pack("<f", .2)*120,
         "y4m": b"YUV4MPEG2 W12 H10 F25:1 Cmono XCOLORRANGE=FULL\nFRAME\n" + b"\x33"*120,
         "jpg": base64.b64decode(JPEG),
         "png": b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 12, 10, 8, 0, 0, 0, 0)) + chunk(b"IDAT", zlib.compress((b"\0" + b"\x33"*12)*10)) + chunk(b"IEND", b"")}
    for k, v in r.items():
        with open(os.path.join(d, "i." + k), "wb") as f:
            f.write(v)
    return [os.path.join(d, "i." + k) for k in r]
OWN = {"pgm": "PGM", "pfm": "PFM", "y4m": "Y4M", "jpg": "libjpeg", "png": "libpng"}

def sh(cmd, cwd, env=None, ok=True):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    X.step()
    X.trace("$", cmd if isinstance(cmd, str) else " ".join(cmd), "->", p.returncode); 
    if ok and p.returncode:
        X.trace(p.stdout[-3000:])
    return p.returncode, p.stdout

EXT = ["libjpeg", "libpng", "ffmpeg", "MagickWand"]
NATIVE = ["pgm", "pfm", "y4m"]
NAMES = {"pgm": "PGM", "pfm": "PFM", "y4m": "Y4M", "libjpeg": "libjpeg", "libpng": "libpng", "ffmpeg": "FFmpeg", "MagickWand": "MagickWand"}
ORDER = ["pgm", "pfm", "y4m", "libjpeg", "libpng", "ffmpeg", "MagickWand"]
PREC = [None, "F", "D", "L"]

def tree(d):
    r = []
    for a, ds, fs in os.walk(d):
        r += [os.path.relpath(os.path.join(a, f), d) for f in fs]
    return sorted(r)

def judge(c):
    """c: the configuration as a dictionary"""
    prepare()
    work = os.path.join(X.SCRATCH, "w")
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(pristine, work)
    inst = os.path.join(X.SCRATCH, "inst")
    shutil.rmtree(inst, ignore_errors=True)
    dirs = {"bin": c.get("binprefix") or "bin", "lib": c.get("libprefix") or "lib", "inc": c.get("incprefix") or "include", "pc": c.get("pcprefix") or "lib/pkgconfig"}
    for d in (dirs["bin"], dirs["lib"], dirs["inc"]):
        os.makedirs(os.path.join(inst, d), exist_ok=True)
    args, env = ["--prefix=" + inst], {}
    if c.get("env"):
        args, env = [], {"PREFIX": inst}
    for k in ("binprefix", "libprefix", "incprefix", "pcprefix"):
        if c.get(k):
            if c.get("env"):
                env[k.upper()] = os.path.join(inst, c[k])
            else:
                args.append("--%s=%s" % (k, os.path.join(inst, c[k])))
    if c.get("everything"):
        args.append("--disable-everything")
    else:
        args += ["--disable-" + x for x in EXT if x in c["without"]]
        if not c["fftw"]:
            args.append("--disable-fftw")
    args += ["--omit-%s-reader" % x for x in NATIVE if x in c["without"]]
    for k, o in (("coeff", "--coeff-precision"), ("inter", "--inter-precision"), ("range", "--default-range"), ("limit", "--pixel-max")):
        if c.get(k):
            args.append("%s=%s" % (o, c[k]))
    if c.get("shared"):
        args.append("--enable-shared")
    if c.get("nosignbit"):
        args.append("--no-builtin-signbit")
    if c.get("order"):
        args.reverse()
    what = " ".join("%s=%s" % e for e in env.items() if e[0] != "PREFIX") + "./configure " + " ".join(a for a in args if not a.startswith("--prefix=")).replace(inst, "")
    rc, o = sh(["bash", "./configure"] + args, work, env)
    X.check(rc == 0, "configure", lambda: "%s: status %d: %s" % (what, rc, o[-600:]))
    rc, o = sh(["make", "-s"], work)
    X.check(rc == 0, "build", lambda: "%s: make fails: %s" % (what, o[-900:]))
    rc, o = sh(["make", "-s", "install", "install-lib"], work)
    X.check(rc == 0, "install", lambda: "%s: make install install-lib fails: %s" % (what, o[-600:]))
    pcenv = {"PKG_CONFIG_PATH": os.path.join(inst, dirs["pc"])}
    rc, ver = sh(["pkg-config", "--modversion", "resdet"], work, pcenv)
    X.check(rc == 0, "pkg-config", lambda: "%s: pkg-config does not know the installed library: %s" % (what, ver))
    ver = ver.strip(); num = ver.split("+")[0]
    want = {dirs["bin"] + "/resdet", dirs["inc"] + "/resdet.h", dirs["lib"] + "/libresdet.a", dirs["pc"] + "/resdet.pc"}
    if c.get("shared"):
        want |= {dirs["lib"] + "/libresdet.so", dirs["lib"] + "/libresdet.so." + num, dirs["lib"] + "/libresdet.so." + num.split(".")[0]}
    X.check(set(tree(inst)) == want, "installed", lambda: "%s: what is installed differs by %s" % (what, sorted(set(tree(inst)) ^ want)))
    # what it says of itself
    readers = [NAMES[r] for r in ORDER if r not in c["without"] and not (c.get("everything") and r in EXT)]
    rc, o = sh([os.path.join(inst, dirs["bin"], "resdet"), "-R", "list"], work)
    X.check(rc == 0 and o.split() == readers, "readers", lambda: "%s: resdet -R list gives %s instead of %s" % (what, o.split(), readers))
    rc, o = sh([os.path.join(inst, dirs["bin"], "resdet"), "-V"], work)
    X.check(rc == 0 and "libresdet version " + num in o, "version", lambda: "%s: resdet -V gives %s, pkg-config %s" % (what, o, ver))
    rng = c.get("range") or "12"
    rc, o = sh([os.path.join(inst, dirs["bin"], "resdet"), "-h"], work)
    X.check(rc == 0 and "(%s)" % rng in o, "range", lambda: "%s: resdet -h does not give the range %s" % (what, rng))
    if c.get("shared"):   # its interface is what the header declares
        hdr = subprocess.run(["gcc", "-E", "-P", os.path.join(inst, dirs["inc"], "resdet.h")], stdout=subprocess.PIPE, text=True).stdout
        api = set(re.findall(r"\b(resdet\w*)\s*\(", hdr))
        nm = subprocess.run(["nm", "-D", "--defined-only", os.path.join(inst, dirs["lib"], "libresdet.so")], stdout=subprocess.PIPE, text=True).stdout
        syms = {l.split()[-1].split("@")[0] for l in nm.splitlines() if l.split()[-2] in "TDBRVW"}
        X.check(len(api) > 20 and api == syms, "interface", lambda: "%s: the shared library and its header differ by %s" % (what, sorted(api ^ syms)))
    # programs that link it, statically and, if there is one, with the shared library
    fftw = c["fftw"] and not c.get("everything")
    files = images(os.path.join(work, "images"))
    for static in (True, False) if c.get("shared") else (True,):
        rc, flags = sh(["pkg-config", "--cflags", "--libs", "resdet"], work, pcenv)
        X.check(rc == 0, "pkg-config", lambda: "%s: pkg-config --libs: %s" % (what, flags))
        if static:    # the archive and what it says it needs, of which only shared libraries are at hand
            rc, deps = sh(["pkg-config", "--print-requires-private", "resdet"], work, pcenv)
            X.check(rc == 0, "pkg-config", lambda: "%s: pkg-config --print-requires-private: %s" % (what, deps))
            if deps.split():
                rc, deps = sh(["pkg-config", "--libs"] + deps.split(), work, pcenv)
                X.check(rc == 0, "pkg-config", lambda: "%s: pkg-config does not know what it requires: %s" % (what, deps))
            flags += " " + deps
        exe = os.path.join(work, "probe")
        libs = flags.split()
        if static:
            libs = [os.path.join(inst, dirs["lib"], "libresdet.a") if x == "-lresdet" else x for x in libs]
        rc, o = sh(["gcc", "-w", os.path.join(HERE, "probe.c"), "-o", exe] + libs + ["-lm"], work)
        X.check(rc == 0, "link", lambda: "%s: a program does not build with the flags of pkg-config (%s): %s" % (what, flags.strip(), o[-600:]))
        rc, o = sh([exe, str(c.get("limit") or 0)] + files, work, {} if static else {"LD_LIBRARY_PATH": os.path.join(inst, dirs["lib"])})
        X.check(rc == 0, "probe", lambda: "%s: a program linked with it ends with status %d: %s" % (what, rc, o[-300:]))
        v = {}
        for l in o.splitlines():
            k, _, r = l.partition(" ")
            v.setdefault(k, []).append(r)
        X.check(v["readers"][0].split() == readers, "readers", lambda: "%s: the library lists %s instead of %s" % (what, v["readers"], readers))
        X.check(v["methods"][0].split() == ["sign", "mag", "orig", "zerox"], "methods", lambda: "%s: methods %s" % (what, v["methods"]))
        X.check(v["range"] == [rng], "range", lambda: "%s: the default range is %s instead of %s" % (what, v["range"], rng))
        X.check(v["version"][0].split("+")[0] == num, "version", lambda: "%s: the library has version %s, pkg-config %s" % (what, v["version"], ver))
        X.check(set(v["fits"]) == {"0"} and set(v["over"]) == {"5"}, "limit", lambda: "%s: sizes up to the limit of %s give %s, larger ones %s" % (what, c.get("limit"), v["fits"], v["over"]))
        X.check(v["bydefault"] == v["asdefault"], "range", lambda: "%s: an image gives %s by default, and %s with the default range" % (what, v["bydefault"], v["asdefault"]))
        if not c.get("limit") or int(c["limit"]) >= 24*20:
            X.check(v["upscaled"][0].startswith("0 16:1.0000") and " x 14:1.0000" in v["upscaled"][0], "detects", lambda: "%s: an image upscaled from 16x14 gives %s" % (what, v["upscaled"]))
            X.check(v["tiny"] == v["upscaled"], "precision", lambda: "%s: the same image multiplied by 2^-60 gives %s instead of %s" % (what, v["tiny"], v["upscaled"]))
            if c.get("coeff") in ("D", "L"):
                X.check(v["huge"] == v["upscaled"], "precision", lambda: "%s: the same image multiplied to the edge of single precision gives %s instead of %s, so coefficients are in single precision" % (what, v["huge"], v["upscaled"]))
                if c.get("inter") != "F":
                    X.check(v["hugeorig"] == v["orig"], "precision", lambda: "%s: the same image multiplied to the edge of single precision gives %s instead of %s with orig, so intermediate values are in single precision" % (what, v["hugeorig"], v["orig"]))
        for k, own in OWN.items() if not c.get("limit") or int(c["limit"]) >= 120 else ():
            use = [r for r in (own, "FFmpeg", "MagickWand") if r in readers]
            got = v[k + ".any"][0]
            if own in readers:
                X.check(re.fullmatch(r"read 1 0 12x10 0\.(19[5-9]|20[0-5])\d*", got), "image", lambda: "%s: a grey image in %s gives %s" % (what, k, got))
            if use:
                # of the two that read anything, FFmpeg leaves names it does not know to the other
                by = [v["%s.%s" % (k, r)][0] for r in (use[:1] if own in readers else use)]
                X.check(got in by, "image", lambda: "%s: an image in %s gives %s, and by %s %s" % (what, k, got, " or ".join(use), by))
            else:
                X.check(got == "error 4", "image", lambda: "%s: an image in %s, which nothing reads, gives %s" % (what, k, got))
        o = subprocess.run(["readelf", "-d", exe if static else os.path.join(inst, dirs["lib"], "libresdet.so")], stdout=subprocess.PIPE, text=True).stdout
        need = set(re.findall(r"NEEDED.*\[(lib\w+?)\.so", o))
        fl = {None: "libfftw3f", "F": "libfftw3f", "D": "libfftw3", "L": "libfftw3l"}[c.get("coeff")]
        got = {x for x in need if x.startswith("libfftw3")}
        # ImageMagick brings its own
        if "MagickWand" in c["without"] or c.get("everything"):
            X.check(got == ({fl} if fftw else set()), "transform", lambda: "%s: linked with %s instead of %s" % (what, sorted(got), fl if fftw else "no FFTW"))
        elif fftw:
            X.check(fl in got, "transform", lambda: "%s: not linked with %s" % (what, fl))
        X.outcome((what, static, o.count("\n"), sorted(v.items())))
    if len(readers) < 7 or not fftw or c.get("coeff") or c.get("inter") or c.get("range") or c.get("limit"):
        X.nontrivial()
    # taking it away leaves nothing
    rc, o = sh(["make", "-s", "uninstall"], work)
    X.check(rc == 0 and not tree(inst), "uninstalled", lambda: "%s: make uninstall (status %d) leaves %s" % (what, rc, tree(inst)))
    X.sample("%s: readers %s, range %s, %s" % (what, " ".join(readers), rng, fl if fftw else "KISS FFT"))
    shutil.rmtree(work, ignore_errors=True); shutil.rmtree(inst, ignore_errors=True)

def subsets(m, names):
    return {n for i, n in enumerate(names) if m >> i & 1}
def case():
    c = {"without": set(EXT), "fftw": False}
    kind = X.choose(4)
    if kind == 0:     # every set of readers
        c["without"] = subsets(X.choose(128), NATIVE+EXT)
        c["fftw"] = X.choose(2) == 1
        c["shared"] = X.choose(2) == 1
        if not X.TIER:
            # quick: all sets of external readers with all or none of the native ones, all sets of native readers with all or none of the external ones; shared alternates
            n = len(c["without"] & set(NATIVE)); e = len(c["without"] & set(EXT))
            if not (n in (0, 3) or e in (0, 4)) or c["shared"] != ((n+e) % 2 == 1) or (e < 4 and n in (1, 2) and c["fftw"]):
                raise X.Skip
    elif kind == 1:   # precision and sign
        c["coeff"], c["inter"] = X.pick(PREC), X.pick(PREC); c["fftw"] = X.choose(2) == 1; c["nosignbit"] = X.choose(2) == 1; c["shared"] = X.TIER and X.choose(2) == 1
        c["order"] = c["nosignbit"]
        if PREC.index(c["inter"] or "D") < PREC.index(c["coeff"] or "F") and c["inter"]:
            raise X.Skip     # the documentation rules these out
    elif kind == 2:   # range and limit
        c["range"] = X.pick([None, "1", "8", "32"]); c["limit"] = X.pick([None, "1", "1000", "4294967296", "18446744073709551615"][:X.Q(3, 5)]); c["fftw"] = X.choose(2) == 1; c["shared"] = X.choose(2) == 1
        c["everything"] = not c["fftw"]; c["order"] = X.TIER and X.choose(2) == 1
        if c["limit"] and len(c["limit"]) > 9:
            raise X.Skip
    else:             # where things go
        for k, d in (("binprefix", "sbin"), ("libprefix", "lib64"), ("incprefix", "include/resdet"), ("pcprefix", "share/pkgconfig")):
            c[k] = X.pick([None, d])
        c["env"] = X.TIER and X.choose(2) == 1
        c["shared"] = X.choose(2) == 1
    X.mine()
    judge(c)
X.explore(case)
