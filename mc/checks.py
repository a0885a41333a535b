"""The checks: which harness, on which builds, decides which property."""
import os
from run import Config, Run, OPT, ASAN

FFTW = Config("fftw")
KISS = Config("kiss", backend="kiss")
ASANF = Config("asan", flags=ASAN)
ASANK = Config("asankiss", backend="kiss", flags=ASAN)

JP = ("libjpeg", "libpng")
JPF = Config("jp", readers=JP)
ASANJP = Config("asanjp", backend="kiss", readers=JP, flags=ASAN)
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free aligned_alloc posix_memalign strdup fopen fclose".split())]
WRAP_F = WRAP + ["-Wl," + ",".join("--wrap=fftwf_" + f for f in "alloc_real malloc free plan_r2r_2d destroy_plan".split())]
WRAP_K = WRAP + ["-Wl,--wrap=kiss_fftr"]

FULL = JP + ("ffmpeg", "magickwand")
O1 = ["-O1", "-g1"]
def selections(t):
    cfgs = []
    nat = ("pgm", "pfm", "y4m")
    for m in range(8):
        om = tuple(n for i, n in enumerate(nat) if m >> i & 1)
        for rd in [(), JP] + ([("libjpeg",), ("libpng",)] if t == "thorough" or m in (0, 7) else []) + ([FULL] if t == "thorough" or m in (0, 7) else []) + ([JP + ("ffmpeg",), JP + ("magickwand",)] if t == "thorough" or m == 0 else []):
            cfgs.append(Config("sel%d%s" % (m, "".join("-" + r for r in rd)), backend="kiss", readers=rd, flags=O1, omit=om))
    return cfgs

TH = ["-O1", "-g1", "-fsanitize=thread", "-fno-inline"]
TWRAP = ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free aligned_alloc posix_memalign strdup pthread_mutex_lock pthread_mutex_unlock pthread_once".split())]
THK = Config("thk", backend="kiss", readers=JP, cc="clang", flags=TH, hflags=["-O2", "-g1"], thunks=True)
TH0 = Config("th0", backend="kiss", readers=JP, cc="clang", flags=["-O0", "-g1", "-fsanitize=thread"], hflags=["-O2", "-g1"], thunks=True)
THF = Config("thf", backend="fftw", readers=JP, cc="clang", flags=TH, hflags=["-O2", "-g1"], thunks=True)

CHECKS = {}
def check(pid, **kw):
    CHECKS[pid] = kw

check("C02", level="exploration",
      runs=lambda t: [Run("h_score.c", FFTW, "sign")],
      rule="one execution = one image, method (sign or zerox) and range analysed with every position's score visible; non-trivial = some position has a score above 0; distinct = different pair of result lists",
      extra=["scores_decided_exactly", "scores_decided_as_interval"])
check("C03", level="exploration",
      runs=lambda t: [Run("h_score.c", FFTW, "mag")],
      rule="as C02, for the mag and orig methods",
      extra=["scores_decided_exactly", "scores_decided_as_interval"])
check("C04", level="exploration",
      runs=lambda t: [Run("h_score.c", FFTW, "size"), Run("h_score.c", KISS, "size")],
      rule="one execution = one image size (and orientation) analysed by one transform backend; distinct = different result lists",
      extra=["scores_decided_exactly", "scores_decided_as_interval"])
check("C01", level="exploration",
      runs=lambda t: [Run("h_list.c", FFTW)],
      rule="one execution = one size, method, range, content and number of frames, with 12 thresholds and each dimension requested together and alone; non-trivial = some list has entries besides the full size")
check("C05", level="exploration",
      runs=lambda t: [Run("h_up.c", FFTW), Run("h_up.c", KISS)],
      rule="one execution = one (source size, upscaled size, dimension, method, range or resampling kernel); non-trivial = the image is upscaled; distinct = different result lists")
check("C06", level="model_checking",
      runs=lambda t: [Run("h_seq.c", FFTW), Run("h_seq.c", KISS)] + ([Run("h_seq.c", ASANK)] if t == "thorough" else []),
      bounds="one handle: all sequences of up to 4 (thorough 5) of 13 operations; two handles: all sequences of 5 (6) of 10; histories of up to 131073 and once 1000003 (16777300) frames")
check("C07", level="exploration",
      runs=lambda t: [Run("h_equiv.c", FFTW), Run("h_equiv.c", KISS)],
      rule="one execution = one (size, frames, method, options, format, defect) through every entry point; non-trivial = detection succeeds")
check("C08", level="model_checking",
      runs=lambda t: [Run("h_param.c", FFTW)],
      bounds="all sequences of 3 (thorough 4) setter calls out of 26, an analysis created before each of them and after; all 2^32 thresholds; all 256 filter values; 192 ranges; 4 methods x 20 ranges x 66 thresholds observed in results")
check("C09", level="exploration",
      runs=lambda t: [Run("h_contract.c", FFTW), Run("h_contract.c", KISS), Run("h_contract.c", ASANF)],
      rule="one execution = one call with one combination of outputs given or omitted and one cause of failure; non-trivial = the call fails; distinct = different (call, cause, combination)")
HUGE = Config("hugefftw", backend="fftw", readers=JP, flags=O1)
def huge(mode, **k):
    return Run("h_huge.c", HUGE, "huge-" + mode, link=["-lpng16", "-ljpeg"], env={"MALLOC_PERTURB_": "0"}, **k)
check("C10", level="exploration",
      runs=lambda t: [Run("h_image.c", FFTW, "decode"), Run("h_image.c", ASANK, "decode"), huge("read", shards=1, hang=200)],
      rule="one execution = one encoded file decoded frame by frame and as a whole through up to seven kinds of source (files of gigabytes: from a file); distinct = different file")
check("C11", level="model_checking",
      runs=lambda t: [Run("h_image.c", FFTW, "cursor"), Run("h_image.c", ASANK, "cursor"), huge("seek")],
      bounds="all sequences of up to 4 (thorough 5) reads and seeks by 6 offsets, followed by draining, on 9 formats of 0 to 4 frames through 4 kinds of source; all interleavings of 4 (6) operations on two handles; seeks by 0 to 302 frames from four places in files of 257 and 300 frames; all sequences of 3 (4) seeks by 4 (5) offsets in 20 files of three frames of 2 to 14 GB")
check("C12", level="exploration",
      runs=lambda t: [Run("h_image.c", ASANK, "bad"), huge("cut")] + ([Run("h_image.c", FFTW, "bad")] if t == "thorough" else []),
      rule="one execution = one malformed or truncated file read frame by frame, by skipping and as a whole, from file, seekable stream and pipe; distinct = different damage")
check("C13", level="fault_enumeration",
      runs=lambda t: [Run("h_fault.c", FFTW, "oom", link=WRAP_F), Run("h_fault.c", KISS, "oom", link=WRAP_K), Run("h_fault.c", ASANK, "oom", link=WRAP_K)],
      rule="one execution = one scenario with one allocation request, two of them, or all from one on, failing; non-trivial = the failure was reached; distinct = different (scenario, requests that fail)",
      extra=["failures_injected"])
check("C14", level="fault_enumeration",
      runs=lambda t: [Run("h_fault.c", FFTW, "io", link=WRAP_F)] + ([Run("h_fault.c", ASANK, "io", link=WRAP_K)] if t == "thorough" else []),
      rule="one execution = one file read through a stream that delivers its bytes in pieces of one size and fails at one offset or one seek; non-trivial = a fault was injected; distinct = different (file, operations, fault)")
check("C20", level="exploration",
      runs=lambda t: [Run("h_codec.c", ASANJP, link=WRAP_K), Run("h_codec.c", JPF, link=WRAP_F)],
      rule="one execution = one PNG or JPEG file (intact, damaged, or read while memory or I/O fails); distinct = different file, damage or fault")
check("C15", level="exploration",
      runs=lambda t: [Run("h_select.c", c, defs=c.built(), link=["-lpng16", "-ljpeg"], shards=4) for c in selections(t)],
      rule="one execution = one file name, declared type, reader name and content on one set of readers built in; non-trivial = the content is decoded by a built-in, libpng or libjpeg reader; distinct = different outcome")
check("C16", level="model_checking",
      runs=lambda t: [Run("h_thread.c", THK, link=TWRAP), Run("h_thread.c", THF, link=TWRAP + ["-Wl,--wrap=fftwf_alloc_real,--wrap=fftwf_malloc,--wrap=fftwf_free"]), Run("h_thread.c", TH0, "race", link=TWRAP, shards=8)],
      bounds="every ordered pair of 27 operations in two threads: every single interruption at a visible point; every pair of interruptions where their product is at most 1500 (8000 for equal operations; thorough 250000)")
CLIK = Config("clik", backend="kiss", flags=O1)
ASANC = Config("asanc", backend="kiss", flags=ASAN)
check("C17", level="exploration",
      runs=lambda t: [Run("h_cli.c", CLIK, program="src/resdet.c")] + ([Run("h_cli.c", ASANC, program="src/resdet.c")] if t == "thorough" else []),
      rule="one execution = one command line run as a process on one input; non-trivial = something besides the full size is detected; distinct = different command line or output",
      extra=["rows_with_one_dimension"])
check("C24", level="exploration",
      runs=lambda t: [Run("h_tool.c", CLIK, "imgread", program="src/imgread.c")] + ([Run("h_tool.c", ASANC, "imgread", program="src/imgread.c")] if t == "thorough" else []),
      rule="one execution = one file converted by imgread run as a process; non-trivial = some frame is written; distinct = different frames or error")
SHIM = ("shim_profile.c", ("getrusage", "resdetect"))
check("C25", level="exploration",
      runs=lambda t: [Run("h_tool.c", c, m, program="src/%s.c" % m, shim=SHIM if m == "profile" else None) for c in ((CLIK, ASANC) if t == "thorough" else (CLIK,)) for m in ("stat", "profile")],
      rule="one execution = stat run on one image, or profile on one dictionary, as a process; non-trivial = results are detected or differ from the known sizes; distinct = different image, dictionary, times or output",
      extra=["outliers_listed", "method_lines"])
FAULTS = ("shim_fault.c", tuple("malloc calloc realloc strdup aligned_alloc posix_memalign fopen fseek fftwf_malloc fftwf_alloc_real getrusage".split()))
check("C27", level="fault_enumeration",
      runs=lambda t: [Run("h_pfault.c", c, m, program="src/%s.c" % m, shim=FAULTS) for c in ((CLIK, FFTW, ASANC) if t == "thorough" else (CLIK,)) for m in ("resdet", "imgread", "stat", "profile")],
      rule="one execution = one command line run as a process while one allocation, opening, byte read or byte written fails; non-trivial = the fault was reached; distinct = different (command line, fault) or output",
      extra=["faults_injected"])
check("C19", level="exploration",
      runs=lambda t: [Run("h_filter.c", FFTW)],
      rule="one execution = one image, orientation, method, range and number of frames analysed with thresholds and all filter values; non-trivial = the filter removes some results and leaves others; distinct = different result lists")
def limits(t):
    out = []
    ls = [1, 4, 6, 7, 12, 16, 24, 36, 63, 64, 65, 100, 4294967295, 4294967296, 0] + ([2, 3, 5, 8, 9, 10, 11, 13, 14, 15, 17, 20, 25, 30, 32, 40, 48, 49, 72, 90, 128, 255, 256, 257, 1000, 65535, 65536] if t == "thorough" else [])
    rs = [12, 1, 2, 3, 5, 8, 13, 20, 32, 7]
    for i, l in enumerate(ls):
        r = rs[i % len(rs)]
        d = (["-DPIXEL_MAX=%dULL" % l] if l else []) + ([] if r == 12 else ["-DDEFAULT_RANGE=%d" % r])
        out.append(Run("h_limit.c", Config("lim%d" % l, backend="kiss" if i & 1 else "fftw", readers=JP, flags=O1, defs=d), defs=["-DMC_LIMIT=%dull" % l, "-DMC_RANGE=%d" % r], link=["-lpng16", "-ljpeg"], shards=2))
        if not l:
            out.append(huge("count", shards=2, hang=300))
            out += [Run("h_limit.c", Config("huge%s" % b, backend=b, readers=JP, flags=O1), "huge", defs=["-DMC_LIMIT=0", "-DMC_RANGE=12"] + (["-DMC_KISS"] if b == "kiss" else []), link=["-lpng16", "-ljpeg"], shards=1, env={"MALLOC_PERTURB_": "0"}) for b in ("fftw", "kiss")]
    return out
check("C18", level="exploration", runs=limits,
      rule="one execution = one size and entry point, or one file, on a build with one size limit and default range; non-trivial = something is refused as too big or has candidates; distinct = different size, format and outcome")

def precisions(t):
    out = []
    lib = {"F": "fftw3f", "D": "fftw3", "L": "fftw3l"}
    for be in ("fftw", "kiss"):
        for c, i in (("F", "F"), ("F", "D"), ("F", "L"), ("D", "D"), ("D", "L"), ("L", "L"), ("D", "F")):
            if t == "quick" and (be == "kiss" and (c, i) in (("F", "D"), ("D", "F")) or (c, i) in (("F", "L"), ("D", "L"))):
                continue
            d = ["-DCOEFF_PRECISION=" + c, "-DINTER_PRECISION=" + i] + (["-Dkiss_fft_scalar=double"] if c != "F" else [])
            # the plain build does without the compiler's sign primitive
            cfg = Config("prec-%s%s%s" % (be, c, i), backend=be, fftwlib=lib[c], flags=["-O2", "-g1"], defs=d + (["-UUSE_BUILTIN_SIGNBIT"] if (c, i) == ("F", "D") else []))
            out.append(Run("h_score.c", cfg, "prec", defs=["-DREF_COEFF=%s" % ("1" if c == "F" else "1e-6"), "-DREF_INTER=%s" % ("2e5" if i == "F" and c == "F" else "1"), "-DREF_HUGE=%d" % (c != "F" and i != "F")], shards=4))
    return out
check("C23", level="exploration", runs=precisions,
      rule="one execution = one image, method and range analysed by a build of one precision, every position's score visible; non-trivial = some position has a score above 0; distinct = different pair of result lists",
      extra=["scores_decided_exactly", "scores_decided_as_interval"])

AVK = Config("avk", backend="kiss", readers=FULL, flags=O1)
AWRAP = ["-Wl," + ",".join("--wrap=" + f for f in "malloc free avformat_open_input avformat_close_input avformat_find_stream_info av_find_best_stream avcodec_alloc_context3 avcodec_free_context avcodec_parameters_to_context avcodec_open2 sws_alloc_context sws_init_context sws_freeContext sws_scale_frame av_frame_alloc av_frame_free av_packet_alloc av_packet_free av_read_frame avcodec_send_packet avcodec_receive_frame NewMagickWand DestroyMagickWand MagickReadImage MagickGetException MagickExportImagePixels".split())]
AVI = ["-I/usr/include/x86_64-linux-gnu/ImageMagick-6", "-I/usr/include/ImageMagick-6", "-DMAGICKCORE_HDRI_ENABLE=0", "-DMAGICKCORE_QUANTUM_DEPTH=16"]
check("C21", level="fault_enumeration",
      runs=lambda t: [Run("h_av.c", AVK, m, defs=AVI, link=AWRAP + ["-ldl"]) for m in ("cursor", "sched", "mix", "fault", "equal", "formats", "damage", "colour", "large")],
      rule="one execution = one file read by one of the two readers with one sequence of operations, decoder schedule, mixture of frames or failing call; non-trivial = something is read, held back, mismatched or failing; distinct = different file, reader and operations, schedule or fault",
      extra=["faults_injected", "faults_reported"])

PYK = Config("pyk", backend="kiss", flags=["-O1", "-g1"], pic=True)
check("C22", level="exploration",
      runs=lambda t: [Run("h_py.py", PYK, m, shards=n) for m, n in (("detect", 24), ("life", 24), ("image", 12), ("pil", 8), ("buffer", 4), ("error", 8), ("oom", 8))],
      rule="one execution = one image, file, index range, argument or sequence of operations through every form the Python bindings take it in; non-trivial = upscaling is detected, an allocation is refused, or a frame read; distinct = different inputs and result")

JSK = Config("wasm", backend="kiss", cc="clang", flags=["--target=wasm32", "-nostdlibinc", "-isystem", os.path.join(os.path.dirname(os.path.abspath(__file__)), "js", "inc"), "-O2"])
check("C26", level="exploration",
      runs=lambda t: [Run("h_js.mjs", JSK, m, shards=n) for m, n in (("detect", 24), ("params", 16), ("sizes", 8), ("oom", 16), ("life", 24), ("info", 1))],
      rule="one execution = one image or sequence of operations through the JavaScript binding, with one set of arguments and one allocation (or none) refused; non-trivial = upscaling is detected; distinct = different arguments and result",
      extra=["allocations_refused", "collections_checked"])

check("C28", level="exploration",
      runs=lambda t: [Run("conf/h_conf.py", KISS, shards=16)],
      rule="one execution = one configuration, configured, built, installed, linked and uninstalled; non-trivial = it differs from the default; distinct = different configuration or properties of the library")

check("C29", level="exploration",
      runs=lambda t: [Run("conf/h_vis.py", KISS, shards=8)],
      rule="one execution = one command line of visualize.sh, run with stand-ins for spec and ImageMagick; non-trivial = upscaling is detected, or something fails; distinct = different command line, failure and result")
check("C30", level="exploration",
      runs=lambda t: [Run("h_host.c", c, defs=c.built() + (AVI if c is AVK else []), link=["-lpng16", "-ljpeg"], env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}) for c in (JPF, KISS, AVK)] + [Run("h_host.c", AVK, "fresh", defs=AVK.built() + AVI, link=["-lpng16", "-ljpeg"])],
      rule="one execution = one operation in one state of the process; non-trivial = the state is not the usual one; distinct = different operation, state or result")
