"""The protocol of mc.h for an explorer written in Python, whose executions are slow."""
import sys, os, mmap, struct, json, time, signal, array, traceback
sys.dont_write_bytecode = True
opt = dict(zip(sys.argv[1::2], sys.argv[2::2]))
TIER = opt["--tier"] == "thorough"
SHARD, NSHARDS = int(opt["--shard"]), int(opt["--nshards"])
MODE, SCRATCH = opt["--mode"], opt["--scratch"]
BUDGET, HANG = float(opt["--budget"]), int(opt["--hang"])
MAXCH = 4096

class Skip(Exception): pass
fd = os.open(opt["--status"], os.O_RDWR | os.O_CREAT, 0o600)
os.ftruncate(fd, 4+4*MAXCH+4+8+256)
st = mmap.mmap(fd, 4+4*MAXCH+4+8+256)
outf = open(opt["--out"], "w")
known = {l.rstrip("\n"): 0 for l in open(opt["--known"])}
choices, arity, prefix = [], [], []
replay = [int(x) for x in opt["--replay"].split(",") if x] if "--replay" in opt else None
if replay is not None:
    prefix = replay
execs = trans = nontriv = capped = samples = 0
outcomes = set()

def choose(n):
    i = len(choices)
    v = prefix[i] if i < len(prefix) else 0
    if v >= n:
        sys.stderr.write("mc: divergence while replaying a prefix\n"); os._exit(71)
    choices.append(v); arity.append(n)
    struct.pack_into("I", st, 4+4*i, v)
    struct.pack_into("I", st, 0, i+1)
    return v
def pick(seq):
    return seq[choose(len(seq))]
def Q(q, t):
    return t if TIER else q
counter = 0
def mine():
    """deals the executions that get here out in turn"""
    global counter
    counter += 1
    if replay is None and counter % NSHARDS != SHARD % NSHARDS:
        raise Skip
def H(x):
    h = 1469598103934665603
    for b in repr(x).encode():
        h = ((h ^ b) * 1099511628211) & (1 << 64)-1
    return h
def trace(*a):
    if replay is not None:
        print(*a); sys.stdout.flush()
def fail(sig, msg):
    if sig in known:
        known[sig] += 1
        return
    outf.write(json.dumps({"fail": {"sig": sig, "msg": msg[:1500], "choices": list(choices)}}) + "\n")
    trace("VIOLATED", sig, msg)
    finish(1)
def check(c, sig, msg):
    if not c:
        fail(sig, msg() if callable(msg) else msg)
def step(n=1):
    global trans
    trans += n
def nontrivial():
    global nontriv
    nontriv += 1
def outcome(x):
    outcomes.add(H(x))
def sample(s):
    global samples
    if samples < 4:
        samples += 1
        outf.write(json.dumps({"sample": s}) + "\n")
def finish(code):
    for k, v in known.items():
        if v:
            outf.write(json.dumps({"known": k, "hits": v}) + "\n")
    outf.write(json.dumps({"execs": execs, "trans": trans, "nontriv": nontriv, "capped": capped, "extra": [0]*8}) + "\n")
    outf.close()
    for name, s in (("states", ()), ("outcomes", outcomes)):
        with open(opt["--out"] + "." + name, "wb") as f:
            array.array("Q", s).tofile(f)
    sys.stdout.flush()
    os._exit(code)

def explore(case):
    global execs, prefix, capped
    t0 = time.monotonic()
    while True:
        choices.clear(); arity.clear()
        struct.pack_into("I", st, 0, 0)
        try:
            case()
            execs += 1
        except Skip:
            pass
        except (OSError, MemoryError, AssertionError):
            traceback.print_exc()
            sys.stderr.flush(); os._exit(70)
        except Exception as e:
            # what the code under test put out could not be read as what it should be
            fail("unreadable", traceback.format_exc())
        if replay is not None:
            break
        if time.monotonic()-t0 > BUDGET:
            capped = 1
            break
        while choices and choices[-1]+1 >= arity[-1]:
            choices.pop(); arity.pop()
        if not choices:
            break
        choices[-1] += 1
        prefix = list(choices)
    finish(0)
