#!/usr/bin/env python3
"""Driver of the checks.

  run.py <property>             decide one property (tier from VERIF_TIER: quick or thorough)
  run.py --replay <file>        run the recorded execution of a violation again, with its trace

Builds what the check needs from the working tree of the repository into a scratch directory, runs the explorer's
shards, replays any violation before it is reported, and writes evidence/<property>.json.
"""
import sys, os, json, time, shutil, tempfile, subprocess, signal, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("RESDET_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PYTHON = "/opt/resdet-venv/bin/python"
NCPU = max(1, len(os.sched_getaffinity(0)))

class BuildError(Exception):
    pass

WARN = ["-w"]
BASE = ["-DRESDET_EXPORT", "-DUSE_BUILTIN_SIGNBIT"]
MAGICK_I = ["-I/usr/include/x86_64-linux-gnu/ImageMagick-6", "-I/usr/include/ImageMagick-6", "-fopenmp", "-DMAGICKCORE_HDRI_ENABLE=0", "-DMAGICKCORE_QUANTUM_DEPTH=16"]
EXT = {
    "libjpeg": (["-DHAVE_LIBJPEG=2"], [], ["-ljpeg"]),
    "libpng": (["-DHAVE_LIBPNG=1"], ["-I/usr/include/libpng16"], ["-lpng16"]),
    "magickwand": (["-DHAVE_MAGICKWAND=6"], MAGICK_I, ["-lMagickWand-6.Q16", "-lMagickCore-6.Q16"]),
    "ffmpeg": (["-DHAVE_FFMPEG=1"], [], ["-lavcodec", "-lavformat", "-lavutil", "-lswscale"]),
}
OPT = ["-O3", "-march=x86-64", "-mtune=generic", "-g1"]
ASAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

class Config:
    """one way to build the library"""
    def __init__(self, name, backend="fftw", readers=(), flags=None, cc="gcc", defs=(), fftwlib="fftw3f", pic=False, omit=(), hflags=None, thunks=False):
        self.name, self.backend, self.readers, self.cc, self.defs, self.fftwlib, self.omit = name, backend, tuple(readers), cc, list(defs), fftwlib, tuple(omit)
        self.hflags, self.thunks = hflags, thunks      # flags of the harness if not the library's; calls out of the library go through mc_ext_point
        self.flags = list(OPT if flags is None else flags) + (["-fPIC"] if pic else [])
    def libdefs(self):
        d = BASE + self.defs + ["-DOMIT_%s_READER" % o.upper() for o in self.omit]
        for r in self.readers:
            d = d + EXT[r][0]
        return d
    def built(self):
        """names of the readers, as macros for a harness"""
        return ["-DR_" + r.upper() for r in ("pgm", "pfm", "y4m") + self.readers if r not in self.omit]
    def incs(self):
        return ["-I%s/include" % REPO, "-I%s/lib" % REPO, "-I%s/lib/kissfft" % REPO]
    def libs(self):
        l = []
        for r in self.readers:
            l += EXT[r][2]
        if self.backend == "fftw":
            l.append("-l" + self.fftwlib)
        return l + ["-lm", "-lpthread"]
    def sources(self):
        lib = os.path.join(REPO, "lib")
        s = [os.path.join(lib, f) for f in sorted(os.listdir(lib)) if f.endswith(".c")]
        img = os.path.join(lib, "image")
        for f in sorted(os.listdir(img)):
            if f.endswith(".c"):
                if f[:-2] in self.omit or f[:-2] in EXT and f[:-2] not in self.readers:
                    continue
                s.append(os.path.join(img, f))
        if self.backend == "fftw":
            s.append(os.path.join(lib, "transform", "fftw.c"))
        else:
            s.append(os.path.join(lib, "transform", "kiss_fft.c"))
            for f in ("kiss_fft.c", "kiss_fftnd.c", "kiss_fftndr.c", "kiss_fftr.c"):
                s.append(os.path.join(lib, "kissfft", f))
        return s

class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.lock = threading.Lock()
        self.objs = {}
        self.exes = {}
        self.pool = ThreadPoolExecutor(NCPU)
    def sh(self, cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    def objects(self, cfg):
        if cfg.name in self.objs:
            return self.objs[cfg.name]
        d = os.path.join(self.scratch, "obj-" + cfg.name)
        os.makedirs(d)
        jobs, out = [], []
        for src in cfg.sources():
            base = os.path.basename(src)[:-2]
            o = os.path.join(d, os.path.basename(os.path.dirname(src)) + "_" + base + ".o")
            fl = list(cfg.flags)
            if base in EXT and os.path.basename(os.path.dirname(src)) == "image":
                fl += EXT[base][1]
            out.append(o)
            jobs.append(self.pool.submit(self.sh, [cfg.cc] + fl + cfg.libdefs() + cfg.incs() + WARN + ["-c", src, "-o", o]))
        for j in jobs:
            j.result()
        self.objs[cfg.name] = out
        return out
    def exe(self, harness, cfg, defs=(), link=(), flags=None):
        key = (harness, cfg.name, tuple(defs), tuple(link))
        if key in self.exes:
            return self.exes[key]
        if os.path.dirname(harness) == "conf":
            return self.exes.setdefault(key, self.script(harness))
        if harness.endswith(".mjs"):
            return self.exes.setdefault(key, self.javascript(harness, cfg))
        if harness.endswith(".py"):
            return self.exes.setdefault(key, self.python(harness, cfg))
        objs = self.objects(cfg)
        out = os.path.join(self.scratch, "x%d-%s-%s" % (len(self.exes), os.path.basename(harness)[:-2], cfg.name))
        src = harness if os.path.isabs(harness) else os.path.join(HERE, "h", harness)
        fl = flags or cfg.hflags or cfg.flags
        if cfg.thunks:
            link = list(link) + self.make_thunks(objs, out + ".S", link)
        self.sh([cfg.cc] + fl + ["-D_GNU_SOURCE"] + BASE + list(defs) + (["-DBACKEND_KISS"] if cfg.backend == "kiss" else []) + cfg.incs() + ["-I" + os.path.join(HERE, "h")] + WARN + [src] + objs + ["-o", out] + list(link) + cfg.libs())
        self.exes[key] = out
        return out
    def script(self, harness):
        """a command that runs an explorer which builds for itself"""
        out = os.path.join(self.scratch, os.path.basename(harness)[:-3])
        with open(out, "w") as f:
            f.write("#!/bin/sh\nexec env MC_REPO='%s' python3 '%s' \"$@\"\n" % (REPO, os.path.join(HERE, harness)))
        os.chmod(out, 0o755)
        return out
    def python(self, harness, cfg):
        """a command that runs an explorer written in Python on a shared build of the library and the bindings of the working tree"""
        objs = self.objects(cfg)
        d = os.path.join(self.scratch, "py-" + cfg.name)
        os.makedirs(d, exist_ok=True)
        self.sh(["gcc", "-O1", "-g", "-fPIC", "-shared", "-fno-builtin", "-Wl,-Bsymbolic"] + WARN + [os.path.join(HERE, "py", "fence.c"), "-o", os.path.join(d, "libfence.so")])
        self.sh([cfg.cc] + cfg.flags + ["-shared", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup"] + objs + ["-o", os.path.join(d, "libresdet.so"), "-L" + d, "-lfence", "-Wl,-rpath," + d] + cfg.libs())
        out = os.path.join(d, os.path.basename(harness)[:-3])
        with open(out, "w") as f:
            f.write("#!/bin/sh\nexec env OPENBLAS_NUM_THREADS=1 MC_LIBDIR='%s' LD_LIBRARY_PATH='%s' PYTHONPATH='%s/bindings/python' PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONMALLOC=malloc %s '%s' \"$@\"\n" % (d, d, REPO, PYTHON, os.path.join(HERE, "py", harness)))
        os.chmod(out, 0o755)
        return out
    def javascript(self, harness, cfg):
        """a command that runs an explorer written in JavaScript on a wasm32 build of the library and the binding of the working tree"""
        js, d = os.path.join(HERE, "js"), os.path.join(self.scratch, "js-" + cfg.name)
        objs = self.objects(cfg)
        os.makedirs(d, exist_ok=True)
        self.sh([cfg.cc] + cfg.flags + ["-fno-builtin"] + WARN + ["-c", os.path.join(js, "libc.c"), "-o", os.path.join(d, "libc.o")])
        b = os.path.join(REPO, "bindings", "emscripten")
        names = open(os.path.join(b, "exported_functions.txt")).read().split()
        self.sh(["wasm-ld", "--no-entry", "--gc-sections", "--allow-undefined", "--stack-first", "-z", "stack-size=1048576", "--export=__heap_base"] + ["--export=" + n.lstrip("_") for n in names] + objs + [os.path.join(d, "libc.o"), "-o", os.path.join(d, "lib.wasm")])
        self.sh(["node", os.path.join(js, "transpile.mjs"), os.path.join(b, "resdet.mts"), os.path.join(d, "resdet.mjs")])
        for f in os.listdir(js):
            if f.endswith(".mjs"):
                shutil.copy(os.path.join(js, f), d)
        os.rename(os.path.join(d, "host.mjs"), os.path.join(d, "libresdet.mjs"))
        out = os.path.join(d, os.path.basename(harness)[:-4])
        with open(out, "w") as f:
            f.write("#!/bin/sh\nexec env MC_WASM='%s' MC_EXPORTS='%s' node --expose-gc --single-threaded-gc '%s' \"$@\"\n" % (os.path.join(d, "lib.wasm"), ",".join(names), os.path.join(d, os.path.basename(harness))))
        os.chmod(out, 0o755)
        return out
    def make_thunks(self, objs, path, link):
        """an assembler stub for every function the library calls outside itself"""
        und, dfn = set(), set()
        for o in objs:
            for l in subprocess.run(["nm", o], stdout=subprocess.PIPE, text=True).stdout.splitlines():
                f = l.split()
                if f[-2] in "Uw":
                    und.add(f[-1])
                elif f[-2] in "TDBRVWC":
                    dfn.add(f[-1])
        skip = {"malloc", "calloc", "realloc", "free", "memcpy", "memset", "memmove", "strlen", "strdup", "stdin", "stdout", "stderr", "environ", "optarg", "optind", "optopt", "opterr"}
        for l in link:
            skip.update(w[7:] for w in l.split(",") if w.startswith("--wrap="))
        libm = subprocess.run("nm -D --defined-only /lib/x86_64-linux-gnu/libm.so.6", shell=True, stdout=subprocess.PIPE, text=True).stdout
        skip.update(l.split()[-1].split("@")[0] for l in libm.splitlines())
        names = sorted(n for n in und - dfn - skip if not n.startswith("__tsan") and not n.startswith("_GLOBAL") and not n.startswith("mc_"))
        with open(path, "w") as f:
            f.write(".text\nmc_thunk:\n pushq %rax\n pushq %rdi\n pushq %rsi\n pushq %rdx\n pushq %rcx\n pushq %r8\n pushq %r9\n pushq %r10\n subq $128,%rsp\n")
            for i in range(8):
                f.write(" movups %%xmm%d,%d(%%rsp)\n" % (i, i*16))
            # on entry the stack is off by 8 from the call, by 8 more from the call of mc_thunk: aligned
            f.write(" call mc_ext_point\n")
            for i in range(8):
                f.write(" movups %d(%%rsp),%%xmm%d\n" % (i*16, i))
            f.write(" addq $128,%rsp\n popq %r10\n popq %r9\n popq %r8\n popq %rcx\n popq %rdx\n popq %rsi\n popq %rdi\n popq %rax\n ret\n")
            for n in names:
                f.write(".globl __wrap_%s\n__wrap_%s:\n call mc_thunk\n jmp __real_%s@PLT\n" % (n, n, n))
            f.write(".section .note.GNU-stack,\"\",@progbits\n")
        return [path] + ["-Wl,--wrap=" + n for n in names]
    def program(self, src, cfg, out, shim=None):
        objs = self.objects(cfg)
        extra = []
        if shim:
            so = os.path.join(self.scratch, out + "-shim.o")
            self.sh(["gcc", "-O1", "-g1", "-D_GNU_SOURCE"] + cfg.incs() + ["-c", os.path.join(HERE, "h", shim[0]), "-o", so])
            extra = [so, "-Wl," + ",".join("--wrap=" + f for f in shim[1])]
        o = os.path.join(self.scratch, out)
        self.sh([cfg.cc] + cfg.flags + ["-D_GNU_SOURCE", "-std=gnu99"] + cfg.libdefs() + cfg.incs() + WARN + [os.path.join(REPO, src)] + extra + objs + ["-o", o] + cfg.libs())
        return o
    def program_for(self, run):
        key = ("program", run.program, run.cfg.name, run.shim)
        with self.lock:
            if key not in self.exes:
                self.exes[key] = self.program(run.program, run.cfg, "p%d-%s-%s" % (len(self.exes), os.path.basename(run.program)[:-2], run.cfg.name), run.shim)
            return self.exes[key]
    def shared(self, cfg, out="libresdet.so"):
        objs = self.objects(cfg)
        o = os.path.join(self.scratch, out)
        os.makedirs(os.path.dirname(o), exist_ok=True)
        self.sh([cfg.cc] + cfg.flags + ["-shared"] + objs + ["-o", o] + cfg.libs())
        return o

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=1:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=99", LC_ALL="C", MALLOC_PERTURB_="165", OMP_NUM_THREADS="1", MAGICK_THREAD_LIMIT="1")

class Result:
    """what one check found"""
    def __init__(self):
        self.execs = self.trans = self.nontriv = 0
        self.capped = False
        self.extra = [0]*8
        self.samples = []
        self.known = {}
        self.fails = []          # dicts: sig, msg, choices, run
        self.states = set()
        self.outcomes = set()
        self.runs = {}
        self.notes = []

def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("KNOWN property=%s " % prop):
                sig, _, what = line[len("KNOWN property=%s " % prop):].partition(" :: ")
                out.append((sig.strip(), what.strip()))
    return out

def read_hashes(path, into):
    try:
        with open(path, "rb") as f:
            data = f.read()
    except OSError:
        return
    import array
    a = array.array("Q"); a.frombytes(data[:len(data)//8*8])
    into.update(a)

def read_status(path):
    import struct
    try:
        with open(path, "rb") as f:
            d = f.read()
        n = struct.unpack_from("I", d, 0)[0]
        ch = list(struct.unpack_from("%dI" % n, d, 4))
        note = d[4+4*4096+4+8:][:256].split(b"\0")[0].decode("latin-1") if len(d) > 16400 else ""
        return ch
    except Exception:
        return None

class Run:
    """a harness in a mode, on a build"""
    def __init__(self, harness, cfg, mode="", defs=(), link=(), shards=None, hang=60, args=(), env=None, program=None, shim=None):
        self.harness, self.cfg, self.mode, self.defs, self.link, self.shards, self.hang, self.args, self.env = harness, cfg, mode, defs, link, shards, hang, list(args), env or {}
        self.program = program     # a program of the repository the harness runs: its source
        self.shim = shim           # (source, functions): stand-ins linked into that program
        self.name = "%s/%s/%s" % (os.path.basename(harness)[:-2], mode or "-", cfg.name)

def run_one(exe, run, ctx, shard, nshards, budget, tag, replay=None, hang=None, timeout=None, verbose=False):
    base = os.path.join(ctx["scratch"], "s-%s" % tag)
    wd = base + ".d"
    os.makedirs(wd, exist_ok=True)
    cmd = [exe, "--tier", ctx["tier"], "--shard", str(shard), "--nshards", str(nshards), "--status", base + ".st", "--out", base + ".out",
           "--known", ctx["knownfile"], "--prop", ctx["prop"], "--mode", run.mode, "--budget", "%.0f" % budget, "--hang", str(hang or run.hang),
           "--seed", str(ctx["seed"]), "--scratch", wd] + run.args + (["--program", ctx["builder"].program_for(run)] if run.program else [])
    if replay is not None:
        cmd += ["--replay", ",".join(map(str, replay))]
    env = dict(ENV, TMPDIR=wd, MAGICK_TMPDIR=wd, MAGICK_TEMPORARY_PATH=wd); env.update(run.env)
    t0 = time.time()
    with open(base + ".err", "wb") as err, open(base + ".stdout", "wb") as so:
        try:
            p = subprocess.Popen(cmd, stdout=so, stderr=err, stdin=subprocess.DEVNULL, env=env, cwd=wd, start_new_session=True)
            try:
                rc = p.wait(timeout or budget + 240)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 72
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        except OSError as e:
            raise BuildError(str(e))
    out = []
    if os.path.exists(base + ".out"):
        for l in open(base + ".out", errors="replace"):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    res = {"rc": rc, "out": out, "choices": read_status(base + ".st"), "err": open(base + ".err", errors="replace").read()[-6000:], "stdout": open(base + ".stdout", errors="replace").read()[-20000:],
           "base": base, "wall": time.time()-t0}
    shutil.rmtree(wd, ignore_errors=True)
    return res

def crash_summary(res):
    rc = res["rc"]
    if rc == 72:
        return "hang", "the execution does not terminate"
    for l in res["err"].splitlines():
        if "runtime error:" in l or l.startswith("SUMMARY:"):
            return "sanitizer", l.strip()[-400:].replace(REPO + "/", "")
    if rc < 0:
        return "crash", "killed by signal %d (%s)" % (-rc, signal.Signals(-rc).name)
    return "crash", "exit status %d: %s" % (rc, res["err"].strip()[-300:])

def first_fail(res):
    for o in res["out"]:
        if "fail" in o:
            return o["fail"]
    return None

def explore(ctx, runs, result):
    """build and run all shards; fills result"""
    builder = ctx["builder"]
    jobs = []
    # configurations first, one after another (each compiles in parallel), then harnesses in parallel
    for r in runs:
        builder.objects(r.cfg)
    with ThreadPoolExecutor(NCPU) as tp:
        list(tp.map(lambda r: builder.exe(r.harness, r.cfg, r.defs, r.link), {(r.harness, r.cfg.name, tuple(r.defs), tuple(r.link)): r for r in runs}.values()))
    for i, r in enumerate(runs):
        n = r.shards or NCPU*3
        for s in range(n):
            jobs.append((i, r, s, n))
    # interleave so that a slow run does not come last
    jobs.sort(key=lambda j: (j[2]/j[3], j[0]))
    stop = threading.Event()
    def work(job):
        i, r, s, n = job
        if stop.is_set():
            return job, None
        budget = max(5, ctx["deadline"] - time.time())
        if time.time() > ctx["deadline"]:
            return job, "late"
        res = run_one(builder.exe(r.harness, r.cfg, r.defs, r.link), r, ctx, s, n, budget, "%d-%d" % (i, s))
        if res["rc"] not in (0,):
            stop.set()
        return job, res
    with ThreadPoolExecutor(NCPU) as tp:
        done = list(tp.map(work, jobs))
    bad = []
    for (i, r, s, n), res in done:
        if res is None:
            continue
        if res == "late":
            result.capped = True
            continue
        fin = False
        for o in res["out"]:
            if "execs" in o:
                fin = True
                result.execs += o["execs"]; result.trans += o["trans"]; result.nontriv += o["nontriv"]
                if o["capped"]:
                    result.capped = True
                result.extra = [a+b for a, b in zip(result.extra, o["extra"])]
                x = result.runs.setdefault(r.name, {"executions": 0})
                x["executions"] += o["execs"]
            elif "sample" in o:
                result.samples.append(o["sample"])
            elif "known" in o:
                result.known[o["known"]] = result.known.get(o["known"], 0) + o["hits"]
        read_hashes(res["base"] + ".out.states", result.states)
        read_hashes(res["base"] + ".out.outcomes", result.outcomes)
        if res["rc"] != 0:
            bad.append((i, r, s, n, res))
    # replay before report
    for i, r, s, n, res in bad:
        exe = builder.exe(r.harness, r.cfg, r.defs, r.link)
        f = first_fail(res)
        if f:
            sig, msg, ch = f["sig"], f["msg"], f["choices"]
        else:
            sig, msg = crash_summary(res)
            ch = res["choices"]
            if res["rc"] == 70:
                raise BuildError("harness error: " + res["err"])
        again = run_one(exe, r, ctx, 0, 1, 600, "r%d-%d" % (i, s), replay=ch, hang=max(60, r.hang*2), timeout=r.hang*8+120) if ch is not None else None
        conf = None
        if again is not None and again["rc"] != 0:
            g = first_fail(again)
            conf = g["sig"] if g else crash_summary(again)[0]
            if not g:
                msg = crash_summary(again)[1]
                sig = conf
            else:
                sig, msg = g["sig"], g["msg"]
        if conf is None:
            # it needs the history of the shard (state left behind by earlier executions): run the whole shard again, alone
            again = run_one(exe, r, ctx, s, n, max(60, ctx["hard"]-time.time()), "q%d-%d" % (i, s), hang=r.hang*2)
            if again["rc"] == 0:
                result.notes.append("one abnormal end of shard %d/%d of %s (%s) did not reproduce: %s" % (s, n, r.name, sig, msg[:200]))
                continue
            g = first_fail(again)
            sig, msg = (g["sig"], g["msg"]) if g else crash_summary(again)
            msg += " [after the preceding executions of shard %d/%d]" % (s, n)
            result.fails.append({"sig": sig, "msg": msg, "choices": None, "shard": [s, n], "run": r, "trace": again["stdout"]})
            continue
        result.fails.append({"sig": sig, "msg": msg, "choices": ch, "run": r, "trace": again["stdout"]})
    result.fails.sort(key=lambda f: len(f["choices"]) if f["choices"] is not None else 9999)

def report(ctx, spec, result):
    prop = ctx["prop"]
    known = ctx["known"]
    for sig, what in known:
        if result.known.get(sig):
            print("KNOWN-FINDING: property=%s %s (%d executions)" % (prop, what or sig, result.known[sig]))
    viol = 0
    for f in result.fails[:3]:
        viol += 1
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = {"property": prop, "signature": f["sig"], "message": f["msg"], "choices": f.get("choices"), "shard": f.get("shard"), "tier": ctx["tier"],
                "run": f["run"].name if f.get("run") else None, "index": ctx["runs"].index(f["run"]) if f.get("run") in ctx.get("runs", []) else None, "trace": f.get("trace", ""),
                "detail": f.get("detail")}
        h = hashlib.sha1(json.dumps([prop, f["sig"], f.get("choices"), f["msg"]]).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (prop, h))
        with open(p, "w") as o:
            json.dump(body, o, indent=1)
        print("violated: %s: %s" % (f["sig"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    cov = {}
    level = spec["level"]
    u = sorted(set(result.samples))
    samples = [u[i*len(u)//12] for i in range(12)] if len(u) > 12 else (u or ["(none)"])
    if level == "model_checking":
        cov = {"states": len(result.states), "transitions": result.trans, "traces_validated_against_impl": result.execs, "samples": samples,
               "distinct_outcomes": len(result.outcomes)}
    else:
        cov = {"evaluations": result.execs, "distinct_nontrivial": min(len(result.outcomes), result.nontriv) if result.nontriv else len(result.outcomes), "rule": spec["rule"], "samples": samples,
               "library_calls": result.trans}
    cov["exhaustive"] = not result.capped
    cov["bounds"] = spec.get("bounds", "")
    cov["per_run"] = result.runs
    if spec.get("extra"):
        for k, v in zip(spec["extra"], result.extra):
            cov[k] = v
    if result.notes:
        cov["notes"] = result.notes
    cov["known_findings_hit"] = result.known
    ev = {"property": prop, "tier": ctx["tier"], "seed": ctx["seed"], "level": level, "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time()-ctx["t0"], 2), "violations": viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    print("%s: %d executions, %d library calls, %d states, %d distinct outcomes, %.1fs%s" % (prop, result.execs, result.trans, len(result.states), len(result.outcomes), time.time()-ctx["t0"], " (capped)" if result.capped else ""))
    return 1 if viol else 0

def main():
    import checks
    replay = None
    if sys.argv[1:] == ["--setup"]:
        # nothing is built ahead: every check builds what it needs from the working tree
        for tool in ("gcc", "clang"):
            if not shutil.which(tool):
                print("missing: " + tool); sys.exit(1)
        print("%d checks, %d processors" % (len(checks.CHECKS), NCPU)); sys.exit(0)
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        replay = json.load(open(sys.argv[2]))
        prop = replay["property"]
    else:
        prop = sys.argv[1]
    spec = checks.CHECKS[prop]
    tier = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
    if replay:
        tier = replay["tier"]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="resdet-mc-", dir=os.environ.get("TMPDIR") or "/tmp")
    code = 2
    try:
        known = load_known(prop)
        kf = os.path.join(scratch, "known")
        with open(kf, "w") as f:
            for sig, _ in known:
                f.write(sig + "\n")
        limit = float(os.environ.get("MC_BUDGET", 600 if tier == "quick" else 5400))
        ctx = {"prop": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "scratch": scratch, "knownfile": kf, "known": known, "t0": t0,
               "deadline": t0+limit, "hard": t0+limit+200, "builder": Builder(scratch), "repo": REPO, "run_one": run_one, "Run": Run}
        result = Result()
        runs = spec["runs"](tier) if spec.get("runs") else []
        ctx["runs"] = runs
        if replay:
            if replay["index"] is None:
                print(json.dumps(replay, indent=1)); print("replayed by running the check: run.py %s" % prop); code = 0
            else:
                r = runs[replay["index"]]
                exe = ctx["builder"].exe(r.harness, r.cfg, r.defs, r.link)
                if replay["choices"] is None:
                    s, n = replay["shard"]
                    res = run_one(exe, r, ctx, s, n, 600, "replay")
                else:
                    res = run_one(exe, r, ctx, 0, 1, 600, "replay", replay=replay["choices"])
                sys.stdout.write(res["stdout"]); sys.stdout.write(res["err"])
                f = first_fail(res)
                print("outcome: %s" % (f or (crash_summary(res) if res["rc"] else "no violation"),))
                code = 1 if res["rc"] else 0
        else:
            if runs:
                explore(ctx, runs, result)
            if spec.get("script"):
                spec["script"](ctx, result)
            code = report(ctx, spec, result)
    except BuildError as e:
        print("cannot build or run the check: %s" % e, file=sys.stderr)
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

if __name__ == "__main__":
    main()
