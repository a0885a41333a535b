"""Explorer of visualize.sh (C29): the real script and the real resdet, with stand-ins for spec and the ImageMagick tools."""
import sys, os, re, shutil, subprocess, struct, random, fcntl, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import explore as X
REPO = os.environ["MC_REPO"]
S = X.SCRATCH
SHARED = os.path.dirname(S)

BIN = os.path.join(S, "bin")
STUB = {
    # says the size that the file's header gives
    "identify": '''[ -e "$FAIL/identify" ] && exit 1
for f; do :; done
case "$f" in -*) exit 1;; esac
while read -r a b; do case "$a" in P*) ;; *) echo "$a $b"; exit 0;; esac; done < "$f"
exit 1''',
    "spec": '''[ -e "$FAIL/spec" ] && exit 1
echo spectrogram''',
    "magick": '''[ -e "$FAIL/magick" ] && exit 1
read -r a || exit 1
[ "$a" = spectrogram ] || exit 1
for f; do :; done
echo drawn > "$f"''',
}
def pfm(path, w, h, sw, sh, frames=1):
    """like an image upscaled from sw x sh"""
    out = b""
    for k in range(frames):
        rnd = random.Random(w*1000+h+k)
        c = [[0.0]*w for _ in range(h)]
        for v in range(h):
            for u in range(w):
                c[v][u] = rnd.uniform(.2, 1)*rnd.choice((-1, 1))
        for v in range(h):
            for u in range(w):
                if sw < u < 2*sw and sw < w: c[v][u] = -c[v][2*sw-u]
        for v in range(h):
            if sh < v < 2*sh and sh < h:
                c[v] = [-x for x in c[2*sh-v]]
        cx = [[math.cos(math.pi*(x+.5)*u/w) for u in range(w)] for x in range(w)]
        cy = [[math.cos(math.pi*(y+.5)*v/h) for v in range(h)] for y in range(h)]
        rows = [[sum(c[v][u]*cx[x][u] for u in range(w)) for x in range(w)] for v in range(h)]
        im = [[sum(rows[v][x]*cy[y][v] for v in range(h)) for x in range(w)] for y in range(h)]
        out += b"Pf\n%d %d\n-1.0\n" % (w, h) + b"".join(struct.pack("<f", p) for r in im[::-1] for p in r)
    with open(path, "wb") as f:
        f.write(out)
IMAGES = [("a.pfm", 34, 30, 20, 17, 1), ("with space.pfm", 30, 34, 30, 19, 1), ("st*r.pfm", 40, 28, 27, 28, 2), ("b.pfm", 31, 31, 31, 31, 1), ("c.pfm", 9, 40, 9, 23, 1), ("d.pfm", 36, 36, 21, 21, 3)]
ready = False
def prepare():
    global ready
    if ready:
        return
    ready = True
    os.makedirs(BIN)
    build = os.path.join(SHARED, "vis-build")
    with open(os.path.join(SHARED, "vis-lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(build, "done")):
            shutil.rmtree(build, ignore_errors=True); os.makedirs(build)
            for f in ("configure", "Makefile"):
                shutil.copy(os.path.join(REPO, f), build)
            for d in ("include", "lib", "src"):
                shutil.copytree(os.path.join(REPO, d), os.path.join(build, d), ignore=shutil.ignore_patterns("*.o", "*.d", "*.a", "*.so*"))
            env = {"PATH": os.environ["PATH"], "HOME": S, "TMPDIR": S, "LC_ALL": "C", "CC": "gcc", "CFLAGS": "-O1 -w -Wno-error", "GIT_CEILING_DIRECTORIES": "/tmp:" + SHARED}
            for c in (["bash", "./configure", "--disable-everything"], ["make", "-s", "-j4", "resdet"]):
                p = subprocess.run(c, cwd=build, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    sys.stderr.write("mc: resdet does not build: %s\n" % p.stdout[-800:]); os._exit(70)
            open(os.path.join(build, "done"), "w").close()
    shutil.copy(os.path.join(build, "resdet"), os.path.join(S, "resdet"))
    # stand-ins write their arguments down, each ended by a zero byte
    for n, body in STUB.items():
        put(n, body)
    put("resdet", '[ -e "$FAIL/resdet" ] && exit 1\nexec %s/resdet "$@"' % S)
    os.makedirs(os.path.join(S, "fail")); os.makedirs(os.path.join(S, "calls")); os.makedirs(os.path.join(S, "w"))
    for f, *r in IMAGES:
        pfm(os.path.join(S, "w", f), *r)
    with open(os.path.join(S, "w", "bad.pfm"), "wb") as f:
        f.write(b"Pf\n40 40\n-1.0\nshort")
def put(n, body):
    p = os.path.join(BIN, n)
    with open(p, "w") as f:
        f.write('#!/bin/sh\nfor a; do printf "%%s\\0" "$a"; done > %s/calls/%s\n%s\n' % (S, n, body))
    os.chmod(p, 0o755)
def run(args, missing=None, fail=None):
    calls, w = os.path.join(S, "calls"), os.path.join(S, "w")
    for f in os.listdir(calls):
        os.unlink(os.path.join(calls, f))
    if fail:
        open(os.path.join(S, "fail", fail), "w").close()
    if missing:
        os.rename(os.path.join(BIN, missing), os.path.join(S, "missing"))
    try:
        p = subprocess.run(["/bin/bash", os.path.join(REPO, "src", "visualize.sh")] + args, cwd=w, env={"PATH": BIN, "FAIL": os.path.join(S, "fail"), "LC_ALL": "C"}, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
    finally:
        if fail:
            os.unlink(os.path.join(S, "fail", fail))
        if missing:
            os.rename(os.path.join(S, "missing"), os.path.join(BIN, missing))
    X.step()
    r = {f: open(os.path.join(calls, f), "rb").read().decode().split("\0")[:-1] for f in os.listdir(calls)}
    out = [f for f in os.listdir(w) if f.startswith("out")]
    for f in out:
        os.unlink(os.path.join(w, f))
    X.trace("visualize.sh", args, "->", p.returncode, repr(p.stdout[:200]), repr(p.stderr[:200]), r, out)
    return p, r, out
found = {}
def detected(f, opts):
    k = (f, opts)
    if k not in found:
        p = subprocess.run([os.path.join(S, "resdet")] + opts.split() + ["-v", "1", "--", f], cwd=os.path.join(S, "w"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        found[k] = tuple(int(x) for x in p.stdout.split()) if p.returncode == 0 else None
    return found[k]

def draw():
    im = X.pick(IMAGES)
    o = {"l": X.pick([None, "0", "7", "200"]), "c": X.pick([None, "red", "#00ff0080", "rgb(1, 2, 3)"][:X.Q(3, 4)]), "t": X.pick([None, "3", "0.5"][:X.Q(2, 3)]),
         "r": X.pick([None, "-m mag", "-R PFM -m zerox", "-v 3 -m orig"]), "s": X.pick([None, "-g 1 --rangetype one"])}
    back, out = X.choose(X.Q(1, 2)), X.pick(["out.png", "out of it.png"])
    X.mine(); prepare()
    args = []
    for k in (sorted(o, reverse=True) if back else sorted(o)):
        if o[k] is not None:
            args += ["-" + k, o[k]] if not (back and k in "lt") else ["-" + k + o[k]]
    p, r, outs = run(args + [im[0], out])
    what = "visualize.sh " + " ".join(args + [im[0], out])
    X.check(p.returncode == 0 and outs == [out], "fails", lambda: "%s: status %d, files %s: %s" % (what, p.returncode, outs, p.stderr))
    d = detected(im[0], o["r"] or "")
    W, H, L = im[1], im[2], int(o["l"] or 50)
    m = r.get("magick", [])
    X.check(len(m) == 8 and m[0] == "-" and m[-1] == out, "magick", lambda: "%s: magick %s" % (what, m))
    opt = dict(zip(m[1:-1:2], m[2:-1:2]))
    X.check(opt.get("-stroke") == (o["c"] or "green") and opt.get("-strokewidth") == (o["t"] or "1"), "style", lambda: "%s: %s" % (what, opt))
    X.check(re.fullmatch(r"(\s*line\s+-?[0-9.]+,-?[0-9.]+\s+-?[0-9.]+,-?[0-9.]+\s*){2}", opt.get("-draw", "")), "lines", lambda: "%s: draws \"%s\"" % (what, opt.get("-draw")))
    lines = sorted([tuple(float(x) for p in l.split() for x in p.split(",")) for l in opt.get("-draw", "").split("line") if l.strip()])
    want = sorted([(W-L, d[1], W, d[1]), (d[0], H-L, d[0], H)])
    ends = lambda ls: sorted(sorted([l[:2], l[2:]]) for l in ls)
    X.check(ends(lines) == ends(want), "lines", lambda: "%s: draws %s where resdet finds %dx%d, so that the lines are %s" % (what, lines, d[0], d[1], want))
    X.check(r.get("spec") == (o["s"].split() if o["s"] else []) + ["--", im[0], "-"], "spec", lambda: "%s: spec %s" % (what, r.get("spec")))
    if d != (W, H):
        X.nontrivial()
    X.outcome((what, d)); X.sample("%s: %dx%d marked" % (what, *d))

def wrong():
    kind = X.choose(4)
    if kind == 0:
        miss = X.pick(["resdet", "spec", "magick"]); im = X.pick(IMAGES[:2]); l = X.choose(2); X.mine(); prepare()
        p, r, outs = run((["-l", "5"] if l else []) + [im[0], "out.png"], missing=miss)
        X.check(p.returncode not in (0, 127) and not outs and not r and p.stderr, "missing", lambda: "without %s: status %d, calls %s, files %s, says %s" % (miss, p.returncode, r, outs, p.stderr))
    elif kind == 1:
        f = X.pick(["resdet", "identify", "magick", "spec"]); im = X.pick(IMAGES[:3]); l = X.choose(2); X.mine(); prepare()
        p, r, outs = run((["-l", "5"] if l else []) + [im[0], "out.png"], fail=f)
        X.check(p.returncode != 0 and not outs, "failing", lambda: "with %s failing: status %d, calls %s, files %s" % (f, p.returncode, r, outs))
        miss = f
    elif kind == 2:
        args = X.pick([[], ["a.pfm"], ["-x", "a.pfm", "out.png"], ["-l"], ["-l", "5"], ["-l", "5", "a.pfm"], ["a.pfm", ""], ["-c"], ["-q"]]); X.mine(); prepare()
        p, r, outs = run(args)
        X.check(p.returncode == 2 and not outs and not r and p.stderr.startswith("usage: visualize.sh") and not p.stdout, "usage", lambda: "%s: status %d, calls %s, files %s, says %s" % (args, p.returncode, r, outs, p.stderr))
        miss = args
    else:
        f, opts, what = X.pick([("none.pfm", None, "missing"), ("bad.pfm", None, "cut short"), ("a.pfm", "-m nothing", "no method"), ("a.pfm", "-R FFmpeg", "no such reader"), ("a.pfm", "-Z", "no such option")]); X.mine(); prepare()
        p, r, outs = run((["-r", opts] if opts else []) + [f, "out.png"])
        X.check(p.returncode != 0 and not outs and "magick" not in r, "error", lambda: "%s: status %d, calls %s, files %s, says %s" % (what, p.returncode, r, outs, p.stderr))
        miss = what
    X.nontrivial(); X.outcome((kind, str(miss), p.stderr)); X.sample("%s: status %d" % (miss, p.returncode))
def case():
    if X.choose(2):
        wrong()
    else:
        draw()
X.explore(case)
