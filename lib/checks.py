"""What each property's check runs. Quick plans are sized for every change (well under two
minutes on 8 cores), thorough plans for depth; both are bounded by case counts."""
import os
from engine import Job, Check

CHECKS = {}


def add(*a, **k):
    c = Check(*a, **k)
    CHECKS[c.pid] = c


def specs(ctx, name, lines):
    p = os.path.join(ctx.tmp, name + ".specs")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p


GEN_RULE = ("Inputs are generated from %s (families: uniform, runs, periodic with mutations, Fibonacci, Thue-Morse, monotone, "
            "chosen S*-substring lengths around multiples of 256 and 65536, hash-colliding substrings, word text, morphisms, self-copies, "
            "mixtures; alphabets 1..256 including 0 and 255). Non-trivial: the input has at least one S*-substring; distinct by content.")


def big_specs(ctx):
    """deterministic large or special inputs (seeded by VERIF_SEED where random)"""
    s = ctx.seed
    L = ["rand,n=3000000,s=256,seed=%d" % s, "rand,n=6000000,s=2,seed=%d" % s, "text,n=5000000,w=3000,seed=%d" % s,
         "fib,n=5000000,b=97", "tm,n=4194304,s=2,b=0", "per,n=4000000,s=3,p=7,m=3,seed=%d" % s,
         "runs,n=4000000,s=5,b=0,r=3000,seed=%d" % s, "morph,n=3000000,k=4,b=250,seed=%d" % s,
         "rep,n=3000000,s=256,b=0,base=5000,ed=3,seed=%d" % s, "mono,n=2000000,s=256,b=0,d=3",
         "lms,k=300,len=0,dup=20,w=8,lo=0,seed=%d" % s, "lms,k=40,len=65536,dup=50,w=3,lo=5,seed=%d" % s,
         "lms,k=6,len=16777216,dup=50,w=200,lo=3,seed=%d" % s, "lms,k=3,len=16777215,dup=0,w=200,lo=3,seed=%d" % s,
         "lms,k=60,len=131072,dup=30,w=3,lo=5,pre=65535,seed=%d" % s,
         "coll,k=60,len=7,w=150,rep=4,seed=%d" % s, "coll,k=300,len=8,w=60,rep=3,nb=8,seed=%d" % s,
         "coll,k=2000,len=9,w=100,rep=2,nb=60,pre=300,seed=%d" % s,
         # names of 4 bytes need n/2+1 >= 2^24
         "rand,n=33600000,s=4,b=97,seed=%d" % s]
    if ctx.thorough:
        L += ["rand,n=33600000,s=256,seed=%d" % s, "rand,n=40000000,s=17,b=239,seed=%d" % s, "text,n=60000000,w=60000,seed=%d" % s,
              "morph,n=40000000,k=5,b=0,seed=%d" % s, "rep,n=50000000,s=256,b=0,base=1000000,ed=3,seed=%d" % s,
              "lms,k=9,len=33554432,dup=50,w=250,lo=0,seed=%d" % s, "coll,k=20000,len=9,w=100,rep=2,nb=600,seed=%d" % s]
        L += ["mix,n=3000000,k=6,seed=%d" % (s * 100 + i) for i in range(16)]
    return L


def edge_specs(ctx):
    """numbers of distinct substrings, of substrings and lengths around powers of 256 and block sizes"""
    s = ctx.seed
    L = ["tree,k=%d,p=%d,q=0,bits=%d,v=1,ord=%d,lo=3,seed=%d" % (e + d, p, 9 if e < 1000 else 11 if e < 2000 else 17, o, s)
         for e in (128, 256, 512, 1024, 2048, 32768, 65536) for d in range(-2, 5) for o, p in ((0, 0), (2, 1)) if e < 3000 or o == 0]
    # few distinct ones, many in all
    L += ["lms,k=%d,len=%d,dup=98,w=3,nl=1,lo=97,seed=%d" % (k + d, ln, s + d) for k in (256, 1024, 2048, 65536) for d in (-1, 0, 1, 2) for ln in (3, 5)]
    L += ["rand,n=%d,s=%d,b=0,seed=%d" % (n, k, s) for n in (255, 256, 257, 508, 509, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 65534, 65535, 65536, 65537, 131068, 131069, 131070, 131071, 131072, 131073) for k in (3, 256)]
    L += ["alt,n=%d,lo=%d,hi=%d,b=0,seed=%d" % (n, lo, hi, s) for n in (3000, 60000) for lo, hi in ((6, 90), (3, 250), (30, 220))]
    return L


def large_specs(ctx):
    """a few larger inputs of different shape, for checks that run several calls per input"""
    s = ctx.seed
    L = ["per,n=20000000,s=2,p=2,m=0,seed=%d" % s, "mono,n=33600000,s=1,d=0", "mono,n=12000000,s=2,d=3", "rand,n=3000000,s=2,b=0,seed=%d" % s, "text,n=4000000,w=3000,seed=%d" % s, "rand,n=1200000,s=256,b=0,seed=%d" % s]
    if ctx.thorough:
        L += ["rand,n=33600000,s=4,b=97,seed=%d" % s, "rand,n=20000000,s=256,b=0,seed=%d" % s, "lms,k=6,len=16777216,dup=50,w=200,lo=3,seed=%d" % s]
    return L


# ------------------------------------------------------------------------------ C01
def plan_c01(ctx):
    t = ctx.thorough
    return [Job("o2", "h_bwt", "c01", specs=specs(ctx, "big", big_specs(ctx)), parts=8 if not t else 12, cpu=600, label="big"),
            Job("o2", "h_bwt", "c01", cases=400000 if t else 20000, max=3000, label="small"),
            Job("o0", "h_bwt", "c01", cases=40000 if t else 2500, max=3000, label="small-O0"),
            Job("o2", "h_bwt", "c01", cases=6000 if t else 150, max=300000, label="medium"),
            Job("o2", "h_bwt", "c01", specs=specs(ctx, "edge", edge_specs(ctx)), cpu=300, label="edges"),
            Job("o2", "h_bwt", "exh", max=200000 if t else 5000, label="exhaustive")]


add("C01", "exploration", "differential testing against suffix-sort and inversion oracles", "Every result of every call made is compared with an independent suffix sort (n<=300) and decoded completely (all n); inputs not generated are not covered.",
    GEN_RULE % "21 families plus exhaustive enumeration of all strings over 2-4 letters up to a length bound", plan_c01,
    must=["cases_with_zero_byte", "cases_with_255_byte", "cases_without_lms", "cases_with_length_multiple_of_256", "cases_with_repeated_substring",
          "cases_with_unique_names_over_255", "cases_with_unique_names_over_65535", "cases_with_more_than_1024_lms"],
    assumptions=["the caller's string is followed by a NUL byte (documented precondition)", "the inversion oracle of harness/common.hpp is correct"])


# ------------------------------------------------------------------------------ C02
def file_specs(ctx):
    s = ctx.seed
    L = ["mono,n=%d,s=1,d=0,b=%d" % (n, b) for n in (1, 2, 3, 8, 300) for b in (0, 97, 255)]       # a^n: terminator in the last row
    L += ["mono,n=%d,s=%d,b=%d,d=1" % (n, sg, b) for n in (5, 200) for sg, b in ((5, 97), (256, 0))]
    L += ["mono,n=%d,s=%d,b=%d,d=2" % (n, sg, b) for n in (5, 200) for sg, b in ((5, 97), (256, 0))]
    L += ["rand,n=%d,s=256,b=0,seed=%d" % (n, s * 7 + n) for n in (255, 256, 257, 511, 4087, 4088, 4089, 4095, 4096, 4097, 65535, 65536, 65537, 100000)]
    # terminator row (K+1) and length around buffer sizes: b a^K c^M
    edge = [e + d for e in (4096, 8192, 65536) for d in (-9, -8, -7, -1, 0, 1)] + [1 << 20, (1 << 20) + 1, (1 << 17) - 8, 32768, 16384]
    L += ["rle,r=98.1_97.%d_99.%d" % (e - 1, m) for e in edge for m in (0, 1, 9)]
    L += ["rle,r=98.1_97.%d_99.%d" % (k, e - 1 - k) for e in edge[:18] for k in (e // 2, 3, 4095, 4096) if k < e - 1]
    L += ["rand,n=%d,s=3,b=97,seed=%d" % (n, s) for n in (1000000, 3000000)] + ["text,n=2000000,w=900,seed=%d" % s, "rand,n=%d,s=256,b=0,seed=%d" % (20000000 if ctx.thorough else 4000000, s)]
    return L


def plan_c02(ctx):
    t = ctx.thorough
    s = ctx.seed
    # terminator row n = 2^k-1: every bit of the header below k counts; 2^k + ...: a row in the middle of the file
    big = ["mono,n=%d,s=1,d=0,b=%d" % ((1 << (31 if t else 28)) - 1, 97 + s % 50), "mono,n=%d,s=200,d=2,b=5" % ((1 << 24) - 1)]
    # the file stage alone, with prepared results: terminator rows of up to 33 bits (thorough: 34)
    pat = 0xd4c3b2a1 - s % 1000
    hdr = [((1 << 33) + 4099, (1 << 33) + 4099), ((1 << 33) + 70001, (1 << 32) + pat), ((1 << 32) + 5, 0xe5f6a7b8 + s % 999)] + ([((1 << 34) + 3, (3 << 32) + pat), ((1 << 34) + 3, (1 << 34) + 1), ((1 << 32) + 9, 1 << 32)] if t else [])
    H = [Job("pic", "h_hdr", "hdr", one="d,n=%d,last=%d,seed=%d" % (n, l, s), parts=1, heavy=(n >> 30) + 1, cpu=600, label="prepared") for n, l in hdr]
    H.append(Job("pic", "h_hdr", "hdr", specs=specs(ctx, "hdr", ["d,n=%d,many=%d,seed=%d" % (m, 400, s * 10 + i) for i, m in enumerate((3, 20, 300, 5000, 9000, 200000))]), label="prepared-small"))
    return H + [Job("o2", "h_file", "c02", specs=specs(ctx, "big", big), cpu=900, heavy=18 if t else 2, parts=1, label="big"),
            Job("o2", "h_file", "c02", specs=specs(ctx, "file", file_specs(ctx)), cpu=300, label="special"),
            Job("o2", "h_file", "c02", cases=12000 if t else 700, max=3000, label="small"),
            Job("asan", "h_file", "c02", cases=1500 if t else 60, max=1500, label="small-asan"),
            Job("o0", "h_file", "c02", cases=2000 if t else 100, max=60000, label="medium-O0")]


add("C02", "exploration", "differential testing of output files against suffix-sort and inversion oracles", "Every output file of every run is parsed and decoded completely, in six situations of the output path.",
    GEN_RULE % "21 families plus lengths around stdio buffer sizes" + " Each input is written to a file and transformed to a fresh, a shorter, a longer output, to itself, to a hard link and to a symbolic link of itself.", plan_c02,
    must=["terminator_in_last_row", "terminator_in_row_1", "inputs_over_64K", "same_file", "cases_with_zero_byte", "cases_with_255_byte"])


# ------------------------------------------------------------------------------ C11
def plan_c11(ctx):
    t = ctx.thorough
    return [Job("o2", "h_file", "reject", specs=specs(ctx, "rej", ["h,seed=%d,len=120,all=1" % (ctx.seed * 1000 + i) for i in range(400 if t else 48)]), label="histories"),
            Job("asan", "h_file", "reject", specs=specs(ctx, "reja", ["h,seed=%d,len=120,all=1" % (ctx.seed * 1000 + 500 + i) for i in range(100 if t else 16)]), label="histories-asan")]


add("C11", "exploration", "request histories with an outcome and side-effect monitor", "Every request of every history is judged: exception type, return, and the output path's existence, inode, size, mtime and content; run as an unprivileged user so that permissions count.",
    "Histories of 120 requests over 11 input kinds x 9 output kinds (each history starts with the full cross product) with rejected bwt_string calls and valid calls interleaved. Non-trivial: every history; distinct by specification.", plan_c11,
    must=["rejected_input_%d" % i for i in range(1, 11)] + ["rejected_output_%d" % i for i in (2, 3, 4, 5, 7, 8)] + ["accepted", "rejected_strings", "permission_checks_active"])


# ------------------------------------------------------------------------------ C12
def plan_c12(ctx):
    s = ctx.seed
    L = ["rand,n=%d,s=256,seed=%d" % (n, s) for n in (1, 2, 3, 30, 64, 300)] + ["text,n=%d,w=20,seed=%d" % (n, s) for n in (100, 500, 700)]
    L += ["mono,n=200,s=1,d=0", "mono,n=300,s=256,b=0,d=2", "mono,n=50,s=5,b=97,d=1"]
    L += ["rand,n=%d,s=256,seed=%d" % (n, s) for n in (4087, 4088, 4089, 4096, 8184, 8192, 20000, 65536, 100000)] + ["text,n=50000,w=300,seed=%d" % s, "per,n=30000,p=3,s=3,seed=%d" % s, "mono,n=20000,s=1,d=0", "mono,n=20000,s=200,b=0,d=2"]
    L += ["rand,n=%d,s=4,seed=%d" % (700 + 97 * i, s * 50 + i) for i in range(400 if ctx.thorough else 16)]
    L += ["text,n=%d,w=50,seed=%d" % (1 + 11 * i, s * 50 + i) for i in range(64 if ctx.thorough else 16)]
    B = ["%s,tries=%d" % (x, 60 if ctx.thorough else 18) for x in large_specs(ctx) if "n=3360" not in x]
    return [Job("o2", "h_file", "fault", specs=specs(ctx, "faultb", B), label="faults-large", cpu=300),
            Job("o2", "h_file", "fault", specs=specs(ctx, "fault", L), label="faults"),
            Job("asan", "h_file", "fault", specs=specs(ctx, "faulta", [l for l in L if int(l.split("n=")[1].split(",")[0]) <= 800][::2] + ["per,n=30000,p=3,s=3,seed=%d" % s, "mono,n=20000,s=1,d=0"]), label="faults-asan"),
            Job("o2", "h_file", "storm", specs=specs(ctx, "storm", ["rand,n=%d,s=256,seed=%d,us=%d,turns=%d" % (n, s * 9 + i, us, 20 if ctx.thorough else 5) for i, (n, us) in enumerate([(66000, 2000), (66000, 500), (100000, 5000), (150000, 1000), (150000, 20000), (300000, 3000), (300000, 300), (20000, 200)])]), label="signals", cpu=120)]


add("C12", "fault_enumeration", "file-size limits at every output offset, full device, shrinking input, with a completeness monitor", "For inputs up to 700 bytes the output is refused at every byte offset; larger ones at sampled offsets around buffer boundaries.",
    "Each input is transformed with RLIMIT_FSIZE at every offset 0..n+9 (n<=700) or 60 chosen offsets (lasting, and lifted after the first refusal), to /dev/full, and with the input truncated after its length was taken. Non-trivial: a fault was actually delivered; distinct by (input, fault).", plan_c12,
    must=["refused_outputs", "temporary_refusals", "limits_not_reached", "short_reads", "signals_during_calls", "interrupted_calls_that_returned"])


# ------------------------------------------------------------------------------ C03
def asan_specs(ctx):
    """medium inputs with few distinct substrings (ASan's realloc copies, so many are slow)"""
    s = ctx.seed
    L = ["fib,n=300000,b=97", "tm,n=262144,s=2,b=0", "per,n=200000,s=3,p=7,m=3,seed=%d" % s, "runs,n=300000,s=5,b=0,r=3000,seed=%d" % s,
         "morph,n=200000,k=4,b=250,seed=%d" % s, "mono,n=200000,s=256,b=0,d=3", "lms,k=40,len=0,dup=20,w=8,lo=0,seed=%d" % s,
         "lms,k=6,len=65536,dup=50,w=3,lo=5,seed=%d" % s, "lms,k=3,len=1048576,dup=0,w=200,lo=3,seed=%d" % s, "coll,k=60,len=7,w=150,rep=4,seed=%d" % s,
         "coll,k=300,len=8,w=60,rep=3,nb=8,seed=%d" % s, "rand,n=20000,s=256,seed=%d" % s, "text,n=60000,w=500,seed=%d" % s, "rep,n=60000,s=256,b=0,base=800,ed=1,seed=%d" % s]
    L += ["lms,k=%d,len=%d,dup=%d,w=2,nl=1,lo=97,pre=%d,end=%d,seed=%d" % (k, ln, d, pre, e, s) for k in (1, 4) for ln in (255, 256, 257, 511, 512, 768) for d in (0, 80) for pre in (0, 254, 255, 256) for e in (0, 1)]
    return L


def plan_c03(ctx):
    t = ctx.thorough
    sp = specs(ctx, "asan", asan_specs(ctx))
    few = [x for x in large_specs(ctx) if x.startswith(("per", "mono", "rand,n=3000000"))]
    return [Job("asan", "h_bwt", "run", specs=sp, label="special", cpu=300),
            Job("asan", "h_bwt", "run", specs=specs(ctx, "asanl", few), label="large", cpu=300),
            Job("asan", "h_bwt", "run", cases=30000 if t else 1200, max=3000, label="small"),
            Job("asanc", "h_bwt", "run", cases=30000 if t else 700, max=2000, label="small-clang"),
            Job("asanh", "h_width", "width", cases=1500 if t else 25, max=900, label="widths"),
            Job("asan", "h_file", "c02", cases=1500 if t else 50, max=1000, label="files"),
            Job("o2", "h_bwt", "guard", cases=20000 if t else 600, max=3000, label="guard-pages")]


add("C03", "exploration", "AddressSanitizer and UndefinedBehaviorSanitizer builds (gcc and clang), guard pages", "No report on any executed call; a clean run is not memory safety for inputs that were not run, and red zones miss some overflows.",
    GEN_RULE % "21 families" + " Strings are exactly n+1 heap bytes; both ownership modes; widths reached by rebasing the stored positions through the hook.", plan_c03, hang=False,
    must=["calls", "calls_with_40bit_values", "calls_with_48bit_values", "calls_with_56bit_values", "calls_with_64bit_values", "files_checked", "guarded_calls",
          "cases_with_length_multiple_of_256", "cases_with_more_than_1024_lms"],
    assumptions=["in the hooked build the pointer-overflow check is off, because rebased positions make bwp_base an address outside the buffer"])


# ------------------------------------------------------------------------------ C04
def plan_c04(ctx):
    t = ctx.thorough
    sp = specs(ctx, "msan", asan_specs(ctx))
    wl = specs(ctx, "fillw", ["text,n=%d,w=40,seed=%d,wk=%d" % (300 + i, ctx.seed * 77 + i, (33, 40, 48, 56, 61)[i % 5]) for i in range(400 if t else 60)])
    return [Job("msan", "h_bwt", "msan", specs=sp, label="msan-special", cpu=300),
            Job("msan", "h_bwt", "msan", cases=30000 if t else 1200, max=3000, label="msan-small"),
            Job("msanh", "h_bwt", "msan", cases=10000 if t else 400, max=2000, label="msan-widths"),
            Job("msan", "h_file", "c02", cases=1500 if t else 40, max=2000, label="msan-files"),
            Job("o2", "h_mem", "fill", cases=15000 if t else 500, max=3000, label="fill-small"),
            Job("o2", "h_mem", "fill", specs=sp, label="fill-special", cpu=300),
            Job("o2", "h_mem", "fill", specs=specs(ctx, "fillb", large_specs(ctx)), label="fill-large", cpu=300),
            Job("o2h", "h_mem", "fill", specs=wl, label="fill-widths"),
            ] + [Job(f, "h_det", "digest", parts=1, cases=20000 if t else 2500, max=3000, seed=ctx.seed * 13 + 5, out=os.path.join(ctx.tmp, "dig-%s-%d" % (f, i)), env=e, label="digest-%s" % f)
                 for i, (f, e) in enumerate([("o0", {}), ("o2", {"MALLOC_PERTURB_": "165"}), ("o3", {"MALLOC_PERTURB_": "1"}), ("c2", {"MALLOC_ARENA_MAX": "1"}), ("o2", {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}),
                                               ("o2", {"VERIF_AMBIENT": "fp,rand"}), ("o2", {"VERIF_AMBIENT": "thread,errno,umask"}), ("o2", {"VERIF_AMBIENT": "signals,fd0,locale"})])]


def post_c04(ctx):
    """the digests of all builds must agree line by line"""
    import glob
    files = sorted(glob.glob(os.path.join(ctx.tmp, "dig-*")))
    rows = [open(f).read().splitlines() for f in files]
    for k in range(len(rows[0])):
        vals = {r[k] if k < len(r) else None for r in rows}
        ctx.count("results_compared_across_builds", len(rows))
        if len(vals) > 1:
            spec = rows[0][k].split(" ")[0]
            ctx.report("build-dependent", spec, "builds disagree at %s: %s" % (spec, [(os.path.basename(f), r[k] if k < len(r) else None) for f, r in zip(files, rows)]),
                       {"property": "C04", "flavor": "o2", "harness": "h_det", "mode": "digest", "args": {}, "cpu": 60, "env": {}, "spec": spec})
            return


add("C04", "exploration", "MemorySanitizer (reports confirmed with memcheck), heap fill patterns in one process, digests compared across builds and allocator settings", "Every determined output byte of every call is checked for initialisedness (MSan) and compared under 7 fill patterns, 5 builds and processes that differ in errno, rounding mode, locale, threads and signals.",
    GEN_RULE % "21 families", plan_c04, hang=False, post=post_c04,
    must=["output_bytes_checked", "files_compared", "results_compared_across_builds", "bytes_compared", "files_checked", "cases_with_length_multiple_of_256"] + ["calls_with_%dbit_values" % w for w in (32, 40, 48, 56, 64)],
    assumptions=["the byte at the terminator row is unspecified and excluded"])


# ------------------------------------------------------------------------------ C05
def plan_c05(ctx):
    t = ctx.thorough
    wl = specs(ctx, "leakw", ["%s,n=%d,seed=%d,wk=%d" % (("rand,s=3", "text,w=40", "runs,s=4,b=0")[i % 3], 1 + i * 7, ctx.seed * 77 + i, (33, 40, 48, 56, 61)[i % 5]) for i in range(800 if t else 80)])
    return [Job("o2", "h_mem", "leak", cases=12000 if t else 400, max=3000, label="small"),
            Job("o2", "h_mem", "leak", cases=60 if t else 4, max=300000, label="medium"),
            Job("o2", "h_mem", "leak", specs=specs(ctx, "leaks", [x for x in asan_specs(ctx)]), label="special"),
            Job("o2", "h_mem", "leak", specs=specs(ctx, "leakb", large_specs(ctx)), label="large", cpu=300),
            Job("o2h", "h_mem", "leak", specs=wl, label="widths"),
            Job("asan", "h_bwt", "run", cases=2000 if t else 100, max=2000, label="ownership-asan"),
            Job("o0", "h_mem", "leak", cases=2000 if t else 60, max=2000, label="small-O0")]


add("C05", "exploration", "interposed allocator with live-block accounting, descriptor count, ASan for double and mismatched frees", "After every call, returning or throwing, the set of blocks it acquired and still holds is compared with what the contract allows.",
    "Each input goes through nine kinds of calls (both ownership modes, file, same path, and six rejected requests), in 32-bit and rebased widths. Non-trivial: n>2; distinct by content and width.", plan_c05, hang=False,
    must=["allocations_tracked", "calls_that_threw", "calls_that_returned", "calls_with_40bit_values", "calls_with_48bit_values", "calls_with_56bit_values", "calls_with_64bit_values"],
    assumptions=["blocks that libc or libstdc++ keep for themselves are acquired during warm-up calls"])


# ------------------------------------------------------------------------------ C06
def plan_c06(ctx):
    t = ctx.thorough
    return [Job("o2", "h_bwt", "guard", cases=40000 if t else 3000, max=3000, label="guard-small"),
            Job("o0", "h_bwt", "guard", cases=4000 if t else 300, max=3000, label="guard-O0"),
            Job("o2", "h_bwt", "guard", cases=400 if t else 12, max=200000, label="guard-medium"),
            Job("o2h", "h_bwt", "guard", cases=20000 if t else 1200, max=3000, label="guard-widths"),
            Job("o2", "h_bwt", "guard", specs=specs(ctx, "gs", asan_specs(ctx)), label="guard-special"),
            Job("o2", "h_bwt", "guard", specs=specs(ctx, "gb", large_specs(ctx)), label="guard-large", cpu=300),
            Job("asan", "h_bwt", "run", cases=2000 if t else 100, max=2000, label="asan")]


add("C06", "exploration", "write-protected and guard-paged caller strings, mode comparison", "Any write to a protected string or any access one byte outside it faults in that very call; results of five calls are compared.",
    GEN_RULE % "21 families" + " Each input: heap string kept, heap string freed, read-only string ending at a guard page, read-only string starting at one, writable guarded string.", plan_c06, hang=False,
    must=["guarded_calls", "cases_with_more_than_1024_lms", "cases_without_lms"] + ["calls_with_%dbit_values" % w for w in (32, 40, 48, 56, 64)])


# ------------------------------------------------------------------------------ C09
def plan_c09(ctx):
    t = ctx.thorough
    s = ctx.seed
    L = ["rand,n=%d,s=%d,b=0,seed=%d" % (n, sg, s) for n in (60000, 150000) for sg in (2, 4, 256)] + ["text,n=200000,w=300,seed=%d" % s, "fib,n=100000,b=97", "morph,n=100000,k=4,b=0,seed=%d" % s, "rep,n=100000,s=4,base=500,ed=2,seed=%d" % s]
    L += ["mono,n=%d,s=1,d=0" % n for n in (1, 2, 3, 100)] + ["hex,d=00", "hex,d=ff", "hex,d=0001ff00ff"]
    return [Job("o2h", "h_width", "width", cases=8000 if t else 300, max=2000, label="small"),
            Job("o2h", "h_width", "width", cases=30 if t else 2, max=400000, label="medium"),
            Job("o2h", "h_width", "width", specs=specs(ctx, "wid", L), label="special", cpu=300),
            Job("asanh", "h_width", "width", cases=600 if t else 12, max=600, label="asan")]


add("C09", "exploration", "the real pipeline with stored positions rebased through a hook, differential against the oracles", "Each input is transformed at its natural width and up to 40 rebased ones that hit every width boundary within two units.",
    GEN_RULE % "21 families" + " Non-trivial here: the rebased largest position was really used for width selection; distinct by input and position.", plan_c09,
    must=["hook_calls", "calls_with_32bit_values", "calls_with_40bit_values", "calls_with_48bit_values", "calls_with_56bit_values", "calls_with_64bit_values", "largest_value_within_4_of_a_width_boundary"],
    assumptions=["rebasing (bwp_base, bwp_width and sa_max_value shifted by one constant) reproduces what a longer input does to the stored positions"])


# ------------------------------------------------------------------------------ C13
def plan_c13(ctx):
    t = ctx.thorough
    s = ctx.seed
    base = ["text,n=300,w=30,seed=%d" % s, "rand,n=200,s=256,b=0,seed=%d" % s, "mono,n=40,s=1,d=0", "hex,d=61"]
    L, A = [], []
    for wk in (0, 33, 40, 48, 56):
        w = ",wk=%d" % wk if wk else ""
        for b in base if t else base[:2]:
            for m in (0, 1, 2):
                L.append("%s%s,mode=%d" % (b, w, m) + (",step=3,off=%d" % s if m == 2 and not t else ""))
        for m in (0, 1, 2):
            A.append("text,n=%d,w=30,seed=%d%s,mode=%d,step=%d,off=%d" % (150 + 10 * m, s, w, m, 3 if t else 11, s))
    L += ["%s,mode=%d" % (b, m) for b in base[2:] for m in (0, 1)]
    # several queue blocks and a long hash buffer
    L += ["rand,n=30000,s=4,b=97,seed=%d,mode=%d,step=%d,off=%d" % (s, m, 1 if t else 13, s) for m in (0, 1)]
    L += ["lms,k=5,len=70000,w=3,seed=%d,mode=%d,step=%d,off=%d" % (s, m, 1 if t else 13, s) for m in (0, 2)]
    return [Job("o2h", "h_mem", "oom", specs=specs(ctx, "oom", L), label="enumeration"),
            Job("asanh", "h_mem", "oom", specs=specs(ctx, "ooma", A), label="asan")]


add("C13", "fault_enumeration", "every allocation request failed in turn (alone and with all later ones), outcome and result monitor, ASan", "Complete over the allocation index for small inputs in all five widths and three call kinds; strided for the ASan build and larger inputs.",
    "For each (input, call kind, width) the call is run once to count its N allocation requests, then 2N times with the k-th failing, alone or with all later ones. Non-trivial: each injected failure; distinct by (input, width, kind, k, persistence).", plan_c13,
    must=["failures_injected", "exceptions_seen", "enumerations_32bit", "enumerations_40bit", "enumerations_48bit", "enumerations_56bit", "enumerations_64bit"],
    assumptions=["memory a failed call leaves behind is reclaimed by the harness"])


# ------------------------------------------------------------------------------ C21
def plan_c21(ctx):
    t = ctx.thorough
    s = ctx.seed
    L = [x for x in big_specs(ctx) if "16777216" not in x] + ["rand,n=8000000,s=%d,seed=%d" % (k, s) for k in (2, 3, 5, 16)] + \
        ["per,n=8000000,s=2,p=2,m=0,seed=%d" % s, "mono,n=4000000,s=1,d=0", "mono,n=8000000,s=2,d=3", "fib,n=8000000,b=0", "runs,n=4000000,s=2,b=0,r=3,seed=%d" % s, "rand,n=2000000,s=2,b=254,seed=%d" % s]
    return [Job("o2", "h_mem", "peak", specs=specs(ctx, "peak", L), label="large", cpu=600),
            Job("o2", "h_mem", "peak", cases=20000 if t else 1500, max=20000, label="small"),
            Job("o2", "h_mem", "peak", cases=200 if t else 15, max=1000000, label="medium")]


add("C21", "exploration", "interposed allocator measuring peak live bytes against a closed-form bound", "Peak of requested live bytes at every allocation of every call.",
    GEN_RULE % "21 families" , plan_c21, hang=False, must=["inputs_over_1MB", "cases_with_more_than_1024_lms", "cases_without_lms"],
    assumptions=["allocator overhead and fragmentation are not counted, and a moving realloc counts as one block"])


def plan_c29(ctx):
    t = ctx.thorough
    s = ctx.seed
    L = [x for x in big_specs(ctx) if "16777216" not in x] + ["rand,n=8000000,s=%d,seed=%d" % (k, s) for k in (2, 3, 16)] + \
        ["per,n=%d,s=3,p=%d,m=0,seed=%d" % (n, p, s) for n in (5000000, 16000000) for p in (3, 30, 1000)] + ["per,n=12000000,s=200,p=60000,m=3,seed=%d" % s] + \
        ["mono,n=8000000,s=1,d=0", "mono,n=8000000,s=2,d=3", "fib,n=12000000,b=0", "rep,n=12000000,s=256,b=0,base=9000,ed=3,seed=%d" % s, "runs,n=12000000,s=2,b=0,r=90000,seed=%d" % s,
         "text,n=12000000,w=300,seed=%d" % s, "rand,n=2000000,s=2,b=254,seed=%d" % s]
    return [Job("o2", "h_mem", "giveup", specs=specs(ctx, "giveup", L), label="large", cpu=600),
            Job("o2", "h_mem", "giveup", cases=20000 if t else 1500, max=20000, label="small"),
            Job("o2", "h_mem", "giveup", cases=300 if t else 20, max=3000000, label="medium")]


add("C29", "exploration", "interposed allocator measuring peak live bytes, the string included, against a closed-form bound", "Peak of requested live bytes at every allocation of every call that may give its string up.",
    GEN_RULE % "21 families", plan_c29, hang=False, must=["inputs_over_1MB", "calls_bwt_file", "calls_bwt_string", "calls_where_the_string_decides"],
    assumptions=["allocator overhead and fragmentation are not counted, and a moving realloc counts as one block"])


# ------------------------------------------------------------------------------ C07
def plan_c07(ctx):
    t = ctx.thorough
    H = ["h,seed=%d,len=%d,max=%d" % (ctx.seed * 10000 + i, 40 if i % 8 else 300, 2000 if i % 8 else 30000) for i in range(12000 if t else 900)]
    B = ["h,seed=%d,len=12,max=%d" % (ctx.seed * 555 + i, 3000000) for i in range(60 if t else 8)]
    return [Job("o2", "h_hist", "hist", specs=specs(ctx, "histb", B), label="histories-large", cpu=300),
            Job("o2", "h_hist", "hist", specs=specs(ctx, "hist", H), label="histories"),
            Job("o2", "h_hist", "many", parts=2, specs=specs(ctx, "many", ["m,seed=%d,calls=%d" % (ctx.seed + i, 400000 if t else 70000) for i in range(2)]), cpu=600, label="many-calls"),
            Job("o0", "h_hist", "hist", specs=specs(ctx, "hist0", H[::8]), label="histories-O0"),
            Job("o2h", "h_hist", "hist", specs=specs(ctx, "histw", ["h,seed=%d,len=40,max=1500,wid=1" % (ctx.seed * 999 + i) for i in range(2000 if t else 150)]), label="histories-widths"),
            Job("asan", "h_hist", "hist", specs=specs(ctx, "hista", ["h,seed=%d,len=40,max=800" % (ctx.seed * 777 + i) for i in range(400 if t else 24)]), label="histories-asan")]


add("C07", "exploration", "random call histories in one process with an oracle per call", "Every result in every history is judged on its own by the oracle, which knows nothing of earlier calls; held results are re-read after later calls.",
    "A history mixes string calls (both ownership modes), file calls, repeated inputs, rejected requests, calls with an injected allocation failure and with refused output. Non-trivial: at least one failed and two successful calls; distinct by specification.", plan_c07,
    must=["calls_in_the_longest_history", "calls_failed_by_memory", "calls_failed_by_output", "calls_failed_by_request", "held_results_rechecked", "other_bytes_at_the_same_address"] + ["calls_with_%dbit_values" % w for w in (32, 40, 48, 56, 64)])


# ------------------------------------------------------------------------------ C08
def plan_c08(ctx):
    t = ctx.thorough
    s = ctx.seed * 10000
    jobs = []
    # fresh processes, so that first use of everything is concurrent as well
    T = ["t,seed=%d,threads=%d,per=3,max=600,same=%d" % (s + i, 2 + i % 7, i % 2) for i in range(160 if t else 24)]
    for i in range(24 if t else 8):
        jobs.append(Job("tsan", "h_thr", "thr", parts=1, specs=specs(ctx, "t%d" % i, T[i::24 if t else 8]), wall=800, label="tsan"))
    jobs.append(Job("tsan", "h_thr", "thr", parts=2, specs=specs(ctx, "tl", ["t,seed=%d,threads=4,per=2,max=20000" % (s + 500 + i) for i in range(40 if t else 2)]), wall=800, label="tsan-larger"))
    # mostly requests that must be rejected, the first one of each thread of the same kind
    for k in range(1, 7):
        jobs.append(Job("tsan", "h_thr", "thr", parts=1, specs=specs(ctx, "r%d" % k, ["t,seed=%d,threads=%d,per=5,max=300,rej=%d" % (s + 2000 + k * 50 + i, 3 + (i + k) % 6, k) for i in range(20 if t else 2)]), wall=800, label="tsan-rejections"))
    # the other integer widths: one process per width and one with all of them mixed
    for w in (1, 35, 44, 52, 60):
        jobs.append(Job("tsanh", "h_thr", "thr", parts=1, specs=specs(ctx, "tw%d" % w, ["t,seed=%d,threads=%d,per=3,max=600,same=%d,wid=%d" % (s + 3000 + w * 40 + i, 2 + i % 7, i % 2, w) for i in range(30 if t else 3)]), wall=800, label="tsan-widths"))
    jobs.append(Job("o2h", "h_thr", "thr", parts=2, specs=specs(ctx, "pw", ["t,seed=%d,threads=%d,per=8,max=3000,same=%d,wid=1" % (s + 4000 + i, 4 + i % 12, i % 2) for i in range(800 if t else 40)]), label="plain-widths"))
    jobs.append(Job("o2", "h_thr", "thr", parts=4, specs=specs(ctx, "p", ["t,seed=%d,threads=%d,per=8,max=3000,same=%d" % (s + 1000 + i, 4 + i % 28, i % 2) for i in range(3000 if t else 160)]), label="plain"))
    jobs.append(Job("o2", "h_thr", "thr", parts=4, specs=specs(ctx, "pl", ["t,seed=%d,threads=8,per=3,max=200000" % (s + 5000 + i) for i in range(200 if t else 12)]), label="plain-larger"))
    jobs.append(Job("asan", "h_thr", "thr", parts=2, specs=specs(ctx, "a", ["t,seed=%d,threads=8,per=3,max=800" % (s + 7000 + i) for i in range(100 if t else 6)]), label="asan"))
    return jobs


add("C08", "exploration", "ThreadSanitizer on concurrent calls released by a barrier, results checked by the oracle", "Races between executed conflicting accesses (happens-before), whatever the schedule was; wrong results in the schedules that occurred.",
    "2-32 threads transform 2-8 own strings or files each (one request in five is one that must be rejected; in some rounds four of five), half of the rounds with equal inputs; each TSan process starts cold. Non-trivial: at least two calls overlapped in time; distinct by specification.", plan_c08,
    must=["process_states_compared", "concurrent_strings", "concurrent_files", "concurrent_rejections", "concurrent_file_rejections", "pairs_of_overlapping_calls"] + ["calls_with_%dbit_values" % w for w in (32, 40, 48, 56, 64)])


# ------------------------------------------------------------------------------ C14, C15
def lms_specs(ctx):
    s = ctx.seed
    L = ["rand,n=2000000,s=3,seed=%d" % s, "rand,n=1000000,s=256,b=0,seed=%d" % s, "text,n=1500000,w=900,seed=%d" % s, "fib,n=2000000,b=97", "per,n=2000000,s=3,p=7,m=3,seed=%d" % s,
         "morph,n=1000000,k=4,b=250,seed=%d" % s, "coll,k=300,len=8,w=60,rep=3,nb=8,seed=%d" % s, "coll,k=60,len=7,w=150,rep=4,seed=%d" % s,
         "lms,k=40,len=65536,dup=50,w=3,lo=5,seed=%d" % s, "mono,n=1000000,s=1,d=0", "mono,n=1000000,s=256,b=0,d=2", "mono,n=1000000,s=256,b=0,d=3"]
    for e in range(6):  # last substring against an earlier one that ends in byte 0
        L += ["hex,d=%s" % h for h in ("020001020001020001"[:2 * (e + 4)], "0200010100", "030102000102", "02000100010001", "0100ff00fe00ff", "00", "0000", "000000", "010000", "01000100", "0101000101000101")]
    return sorted(set(L))


def plan_lms(mode):
    def plan(ctx):
        t = ctx.thorough
        small = 3000 if mode == "c14" else 1500
        L = lms_specs(ctx) + edge_specs(ctx)
        M = (1 << 32) + 5 + ctx.seed % 97
        G = [("g,r=0.%d_9.1_0.2_5.1_3.1" % M, 1), ("g,r=9.1_0.%d" % M, 1), ("g,r=5.1_0.1_9.1_0.%d_7.1_0.1_9.2" % ((M >> 1) + 3), 4)] if mode == "c14" else [("g,r=9.1_0.%d_5.1_0.%d_4.1_0.300_5.1_9.1_0.150_4.1_9.1" % (M, M), 10)]
        if t:
            G += [("g,r=9.1_0.%d_5.1_0.%d_5.1_0.1_9.1" % (M, M), 6), ("g,r=0.%d_9.1_0.%d_255.1_0.%d_4.1_0.2_5.1_9.1" % (M, M - 1, M + 1), 14)]
        return [Job("o2", "h_lms", "huge" + mode[1:], parts=1, heavy=h, cpu=3000 if t else 600, wall=3600 if t else 850, hang_once=True, one=x, label="huge") for x, h in G] + [
                Job("o2", "h_lms", mode, specs=specs(ctx, "lms", L), label="special", cpu=300),
                Job("o2", "h_lms", mode, cases=200000 if t else 12000, max=small, label="small"),
                Job("o2", "h_lms", mode, cases=4000 if t else 120, max=200000, label="medium"),
                Job("o2", "h_lms", "exh" + mode[1:], max=100000 if t else 4000, label="exhaustive"),
                Job("asan", "h_lms", mode, cases=6000 if t else 300, max=1500, label="small-asan")]
    return plan


add("C14", "exploration", "differential testing of the decomposition stage against the textbook definition", "Every reported count of every run, for all 256 byte values.",
    GEN_RULE % "21 families, exhaustive enumeration of small alphabets, and run-structured inputs beyond 2^32 bytes", plan_lms("c14"),
    must=["s_star_positions_checked", "cases_with_zero_byte", "cases_with_255_byte", "cases_without_lms", "cases_with_length_multiple_of_256", "cases_with_repeated_substring",
          "last_substring_equals_another_ending_in_byte_0", "cases_with_unique_names_over_65535", "inputs_over_2^32", "heads_over_2^32"])
add("C15", "exploration", "differential testing of naming and shortening against direct sorting of the substrings and suffixes", "Every name, the whole name table, and (n<=1500) the order of all S* suffixes.",
    GEN_RULE % "21 families, exhaustive enumeration of small alphabets, and an input with two S*-substrings of more than 2^32 bytes that differ in the last byte", plan_lms("c15"),
    must=["names_checked", "suffix_pairs_compared", "adjacent_names_where_one_is_a_prefix", "cases_with_length_multiple_of_256", "cases_with_repeated_substring", "cases_with_unique_names_over_65535", "substrings_over_2^32"])


# ------------------------------------------------------------------------------ C16
def plan_c16(ctx):
    t = ctx.thorough
    import random
    r = random.Random(ctx.seed)
    L, A = [], []
    for i in range(6000 if t else 500):
        L.append("h,seed=%d,ht=%d,nb=%d,ops=%d,alpha=%d,maxlen=%d,long=%d,b=%d" % (
            ctx.seed * 100000 + i, r.choice([1, 1, 2, 3, 7, 101, 1000]), 1 + i % 8, r.choice([20, 100, 400, 400, 1500]), r.choice([1, 2, 2, 3, 26, 256]),
            r.choice([1, 3, 6, 20, 100]), r.choice([0, 0, 1, 1, 2]) if i % 4 else 0, r.choice([0, 97])))
    L += ["h,seed=%d,ht=67777,nb=%d,ops=20000,alpha=256,maxlen=10,b=0" % (ctx.seed + k, k) for k in (2, 3, 4)]
    L += ["h,seed=%d,ht=%d,nb=%d,ops=%d,alpha=256,maxlen=10,b=0" % (ctx.seed + k, ht, k, ops) for k, ht, ops in ((5, 67778, 8000), (3, 131101, 8000), (1, 200003, 4000))]
    L += ["h,seed=%d,ht=1,nb=2,ops=3000,alpha=4,maxlen=8" % (ctx.seed + k) for k in range(4)]
    L += ["h,seed=%d,ht=%d,nb=4,ops=30,alpha=2,maxlen=8,long=3" % (ctx.seed + k, k) for k in (1, 5)]
    B = ["h,seed=%d,ht=%d,nb=3,ops=300,alpha=256,maxlen=6,b=0,bulk=%d" % (ctx.seed + ht, ht, n) for ht, n in ([(1, 200000), (3, 300000)] if t else [(1, 70000)])]
    for i in range(1000 if t else 120):
        A.append("h,seed=%d,ht=%d,nb=%d,ops=%d,alpha=%d,maxlen=%d,long=%d,b=%d" % (
            ctx.seed * 100000 + 50000 + i, r.choice([1, 2, 7, 101]), 1 + i % 8, r.choice([20, 100, 300]), r.choice([1, 2, 3, 256]), r.choice([1, 3, 6, 20]), r.choice([0, 1, 1]), r.choice([0, 97])))
    G = ["g,len=%d,ht=%d,nb=%d,seed=%d" % ((1 << 32) + 70 + ctx.seed % 97, ht, nb, ctx.seed) for ht, nb in ([(1, 5), (67777, 2)] if t else [(1, 5)])]
    return [Job("o2", "h_hash", "huge", parts=1, heavy=14, cpu=3000 if t else 600, wall=3600 if t else 850, hang_once=True, one=x, label="huge") for x in G] + [
            Job("o2", "h_hash", "hist", specs=specs(ctx, "bulk", B), label="crowded", cpu=1500 if t else 300),
            Job("o2", "h_hash", "hist", specs=specs(ctx, "hash", L), label="histories", cpu=200),
            Job("asan", "h_hash", "hist", specs=specs(ctx, "hasha", A), label="histories-asan", cpu=200)]


add("C16", "exploration", "operation histories on the real table with an exact reference dictionary as monitor, ASan", "Every insertion result, lookup result and table scan of every history is compared with std::map.",
    "Random histories of insertions (fresh, repeated, near-copies), lookups of present and absent strings, name assignments and full scans; table sizes 1..67777, 1-8 name bytes, lengths 3..2^24+1; tables with 70,000 (thorough: 200,000) strings in one bucket; a table of more than 2^33 bytes with strings of more than 2^32 bytes that differ in their first or last byte. Non-trivial: at least two distinct strings and one repeated insertion; distinct by specification.", plan_c16,
    must=["insertions", "repeated_insertions", "lookups_found", "lookups_absent", "names_assigned", "table_scans", "strings_with_length_multiple_of_256", "max_strings_in_one_bucket", "tables_of_size_1", "tables_with_several_blocks_per_bucket", "strings_over_2^32", "tables_over_2^33_bytes"]
    + ["tables_with_%d_name_bytes" % k for k in range(1, 9)])


# ------------------------------------------------------------------------------ C17
def plan_c17(ctx):
    t = ctx.thorough
    import random
    r = random.Random(ctx.seed)
    L, A = [], []
    for rep in range(40 if t else 5):
        for w in range(1, 65):
            L.append("p,w=%d,len=%d,ops=%d,seed=%d,pat=%d" % (w, r.choice([1, 2, 3, 7, 64, 65, 128, 200, 1000, 64 * r.randrange(1, 9)]), 600, r.randrange(1 << 30), rep % 4))
            A.append("p,w=%d,len=%d,ops=%d,seed=%d,pat=%d" % (w, r.choice([1, 2, 63, 64, 65, 128, 300, 64 * r.randrange(1, 5)]), 200, r.randrange(1 << 30), (rep + 1) % 4))
    for w in range(1, 65):
        L.append("p,w=%d,len=%d,ops=%d,seed=%d,pat=%d" % (w, 20000 + w, 40000, r.randrange(1 << 30), w % 3))
        L.append("p,w=%d,len=%d,ops=3000,seed=%d,k=%d" % (w, 1 + r.randrange(300), r.randrange(1 << 30), 2 + w % 3))
        A.append("p,w=%d,len=%d,ops=300,seed=%d,k=%d" % (w, 1 + r.randrange(100), r.randrange(1 << 30), 2 + w % 3))
    F = ["p,w=1,len=%d,seed=%d" % ((1 << 33) + 77, ctx.seed), "p,w=7,len=%d,seed=%d" % ((1 << 32) + 1001, ctx.seed), "p,w=33,len=%d,seed=%d" % ((1 << 29) + 5, ctx.seed),
         "p,w=40,len=%d,seed=%d" % ((1 << 28) + 3, ctx.seed), "p,w=64,len=%d,seed=%d" % ((1 << 28) + 1, ctx.seed), "p,w=63,len=%d,seed=%d" % ((1 << 27) + 1, ctx.seed), "p,w=2,len=%d,seed=%d" % ((1 << 32) + 9, ctx.seed)]
    return [Job("o2", "h_packed", "near", specs=specs(ctx, "pk", L), label="histories"),
            Job("asan", "h_packed", "near", specs=specs(ctx, "pka", A), label="histories-asan"),
            Job("asanc", "h_packed", "near", specs=specs(ctx, "pkc", A[::2]), label="histories-asan-clang"),
            Job("o2", "h_packed", "far", specs=specs(ctx, "pkf", F), parts=4, label="far")]


add("C17", "exploration", "write/read histories with a plain-array monitor, ASan and UBSan, sparse arrays beyond 2^32 elements", "Every read of every history is compared with the last write; all 64 widths.",
    "Random, ascending, descending and edge-biased write histories on arrays of 1..20000 elements for each width 1..64, and sparsely touched arrays of up to 2^33 elements. Non-trivial: more than one element; distinct by specification.", plan_c17,
    must=["writes", "reads", "writes_across_a_word_boundary", "arrays_completely_written", "arrays_ending_exactly_at_a_word", "several_arrays_in_turn", "writes_beyond_index_2^32", "writes_beyond_bit_2^33"] + ["width_%02d" % w for w in range(1, 65)])


# ------------------------------------------------------------------------------ C18
def plan_c18(ctx):
    t = ctx.thorough
    import random
    r = random.Random(ctx.seed)
    L, A = [], []
    for rep in range(60 if t else 4):
        for w in range(1, 64):
            L.append("q,w=%d,ops=%d,seed=%d,peak=%d,drain=%d" % (w, r.choice([500, 5000, 20000, 60000]), r.randrange(1 << 30), r.choice([100, 1023, 1024, 1025, 3000, 10000]), r.randrange(2)))
    for rep in range(8 if t else 1):
        for w in range(1, 64):
            A.append("q,w=%d,ops=%d,seed=%d,peak=%d,drain=%d" % (w, r.choice([500, 5000, 12000]), r.randrange(1 << 30), r.choice([10, 1024, 1025, 3000]), r.randrange(2)))
    for w in range(1, 64):
        L.append("q,w=%d,ops=%d,seed=%d,peak=%d,drain=%d,k=%d" % (w, r.choice([5000, 20000, 60000]), r.randrange(1 << 30), r.choice([1023, 1024, 3000]), r.randrange(2), 2 + w % 3))
        A.append("q,w=%d,ops=%d,seed=%d,peak=%d,drain=%d,k=%d" % (w, 5000, r.randrange(1 << 30), r.choice([1023, 1024, 3000]), r.randrange(2), 2 + w % 3))
    # more elements than 32 bits count
    M = [Job("o2", "h_queue", "many", one="m,count=%d,w=1,front=%d,seed=%d" % ((1 << 32) + 2048 + r.randrange(3000), f, r.randrange(1 << 30)), parts=1, cpu=600, heavy=3, label="many") for f in ((0, 1) if t else (ctx.seed % 2,))]
    return M + [Job("o2", "h_queue", "q", specs=specs(ctx, "q", L), label="histories"), Job("asan", "h_queue", "q", specs=specs(ctx, "qa", A), label="histories-asan")]


add("C18", "exploration", "operation histories with a reference deque and an allocation monitor, ASan", "Every removal, emptiness report and the live bytes at every 16th operation of every history.",
    "Random histories with phases (grow at back, at front, both, shrink, slide, drain) that cross block boundaries, for each width 1..63; queues destroyed empty and full; a queue of more than 2^32 elements. Non-trivial: more than one block held at some time and several removals; distinct by specification.", plan_c18,
    must=["max_elements_in_one_queue", "insertions", "removals", "times_emptied", "memory_checks", "destroyed_while_holding_elements", "destroyed_while_empty", "several_queues_in_turn"] + ["width_%02d" % w for w in range(1, 64)],
    assumptions=["memory allowance: 512 bytes plus (elements/1024 + 3) blocks of 128*w+256 bytes"])


# ------------------------------------------------------------------------------ C20
def plan_c20(ctx):
    t = ctx.thorough
    e = 2000000 if t else 100000
    S = ["u,seed=%d,extra=%d,far=%d" % (ctx.seed * 100 + i, e, i == 0) for i in range(8)]
    A = ["u,seed=%d,extra=%d" % (ctx.seed * 100 + 50 + i, e // 10) for i in range(2)]
    return [Job("o2", "h_util", "util", specs=specs(ctx, "u2", S[:4]), parts=4, label="o2"), Job("o0", "h_util", "util", specs=specs(ctx, "u0", S[4:6]), parts=2, label="o0"), Job("c2", "h_util", "util", specs=specs(ctx, "uc", S[6:]), parts=2, label="clang"),
            Job("asan", "h_util", "util", specs=specs(ctx, "ua", A), parts=2, label="asan"), Job("asanc", "h_util", "util", specs=specs(ctx, "uac", A), parts=2, label="asan-clang")]


add("C20", "exploration", "boundary and random values read back through the real accessors, in optimised and sanitizer builds", "All values within 3 of every power of two, both range ends, and random values of every magnitude; not all 2^56.",
    "Values within 3 of every signed power of two, range ends, and random values of every magnitude, at random indices of arrays with checked neighbours, plus sparse arrays indexed beyond 2^32. Distinct by value and width.", plan_c20,
    must=["40bit_values", "48bit_values", "56bit_values", "bit_lengths", "far_arrays", "far_arrays_of_three_streams"])


# ------------------------------------------------------------------------------ C19
def plan_c19(ctx):
    t = ctx.thorough
    s = ctx.seed
    pre = "s,seed=%d" % s
    L = [pre + x for x in (";fib,n=300000,b=97", ";tm,n=262144,s=2,b=0", ";morph,n=200000,k=4,b=0,seed=%d" % s, ",grp=3,rankmap=1;rand,n=900000,s=3,seed=%d" % s, ",grp=2;rand,n=600000,s=256,b=0,seed=%d" % s,
                           ",mul=100000;rand,n=3000,s=200,b=0,seed=%d" % s, ";per,n=200000,s=3,p=7,m=3,seed=%d" % s, ";mono,n=100000,s=1,d=0", ";mono,n=100000,s=256,b=0,d=3", ";rep,n=200000,s=4,base=500,ed=2,seed=%d" % s,
                           ",low=7;text,n=200000,w=300,seed=%d" % s, ";mono,n=1,s=1,d=0", ";mono,n=2,s=2,d=0", ";mono,n=2,s=2,d=1", ",mul=30000000;rand,n=100,s=2,b=0,seed=%d" % s)]
    J = [Job("o2", "h_sais", "sais", specs=specs(ctx, "sais", L), label="special", cpu=300),
         Job("o2", "h_sais", "sais", cases=60000 if t else 2500, max=2000, label="small"),
         Job("o2", "h_sais", "sais", cases=400 if t else 12, max=200000, label="medium"),
         Job("o0", "h_sais", "sais", cases=4000 if t else 200, max=1000, label="small-O0"),
         Job("asan", "h_sais", "sais", cases=15000 if t else 500, max=600, label="small-asan"),
         Job("asanc", "h_sais", "sais", cases=6000 if t else 150, max=600, label="small-asan-clang"),
         Job("msan", "h_sais", "sais", cases=6000 if t else 150, max=600, label="small-msan")]
    # beyond 2^31 elements, against the closed form
    G = [(40, 1, 12), (64, 1, 18), (48, 1, 14), (56, 1, 16)]
    G = G + [(w, 2, h) for w, p, h in G] if t else [G[(s - 1) % 4]]
    J += [Job("o2", "h_sais", "long", parts=1, heavy=h, cpu=3000 if t else 600, wall=3600 if t else 850, hang_once=True, one="l,n=%d,per=%d,width=%d" % ((1 << 31) + 1001, p, w), label="long") for w, p, h in G]
    return J


add("C19", "exploration", "differential testing of the five builders against a linear-time suffix-array check, ASan and MSan", "Every array of every run is checked completely; sequences beyond 2^31 elements (one builder per quick run, by seed; thorough: every builder that can hold them) are compared with the closed form of their suffix array.",
    GEN_RULE % "21 families, as bytes or packed 2-6 bytes per symbol, scaled, shifted and rank-compressed" + " Each sequence is packed at a needed or a wider element width and sorted by all five builders in garbage-filled arrays of exactly n elements.", plan_c19,
    must=["arrays_checked_%dbit" % w for w in (32, 40, 48, 56, 64)] + ["arrays_with_space_for_one_table", "arrays_with_space_for_two_tables", "sequences_that_need_recursion", "sequences_that_need_three_levels", "sequences_over_2^31", "alphabets_larger_than_the_sequence", "alphabets_over_65536"])


# ------------------------------------------------------------------------------ C22
def plan_c22(ctx):
    t = ctx.thorough
    s = ctx.seed
    L = ["rand,n=4000000,s=%d,b=0,seed=%d" % (k, s) for k in (2, 4, 26, 256)] + ["mono,n=4194304,s=1,d=0", "mono,n=4000000,s=2,d=3", "mono,n=4000000,s=256,b=0,d=3", "mono,n=4000000,s=256,b=0,d=1", "mono,n=4000000,s=256,b=0,d=2",
         "fib,n=4000000,b=97", "tm,n=4194304,s=2,b=0", "tm,n=4000000,s=3,b=97", "per,n=4000000,s=2,p=2,m=0,seed=%d" % s, "per,n=4000000,s=2,p=3,m=0,seed=%d" % s, "per,n=4000000,s=3,p=1000,m=0,seed=%d" % s, "per,n=4000000,s=256,p=60000,m=2,seed=%d" % s,
         "runs,n=4000000,s=2,b=0,r=3,seed=%d" % s, "runs,n=4000000,s=2,b=0,r=100000,seed=%d" % s, "runs,n=2000000,s=256,b=0,r=1000,seed=%d" % s, "morph,n=4000000,k=4,b=250,seed=%d" % s, "morph,n=4000000,k=3,b=0,seed=%d" % (s + 1),
         "text,n=4000000,w=3000,seed=%d" % s, "text,n=3000000,w=30,seed=%d" % s, "rep,n=4000000,s=4,b=97,base=1000,ed=2,seed=%d" % s, "rep,n=4000000,s=256,b=0,base=100000,ed=1,seed=%d" % s,
         "lms,k=60,len=65536,dup=50,w=3,lo=5,seed=%d" % s, "lms,k=30,len=131072,dup=0,w=200,lo=3,seed=%d" % s, "lms,k=3,len=1048576,dup=0,w=200,lo=3,seed=%d" % s, "lms,k=300,len=0,dup=20,w=8,lo=0,seed=%d" % s]
    L += ["tree,k=%d,p=%d,q=%d,bits=17,v=%d,ord=%d,lo=%d,seed=%d" % (3900000 // (20 + p + q + (9 if v == 0 else 0)), p, q, v, o, 7 + v, s) for p, q in ((1, 0), (40, 0), (0, 40), (20, 20)) for v in (0, 1, 2) for o in (0, 2)]
    L += ["alt,n=%d,lo=%d,hi=%d,b=0,seed=%d" % (n, lo, hi, s) for n in (8000, 40000, 1000000) for lo, hi in ((6, 90), (3, 250), (30, 220))]
    L += [x + ",any=1" + ",z=%d" % z for x in L[:3] + L[10:14] for z in range(3 if t else 1)]
    return [Job("cov", "h_steps", "steps", specs=specs(ctx, "steps", L), label="large", cpu=200),
            Job("cov", "h_steps", "steps", cases=20000 if t else 1200, max=60000, label="small"),
            Job("cov", "h_steps", "steps", cases=800 if t else 20, max=1000000, label="medium")]


add("C22", "exploration", "basic-block counter (clang trace-pc instrumentation) against a closed-form bound", "The exact number of blocks executed by every call; stopped at once when the bound is passed.",
    GEN_RULE % "21 families", plan_c22, must=["basic_blocks_counted", "file_transforms_counted", "freeing_transforms_counted", "inputs_over_100000_bytes", "cases_with_more_than_1024_lms", "cases_without_lms"],
    assumptions=["generated inputs of the coll family (deliberate table collisions) are not used here"])


# ------------------------------------------------------------------------------ C23
import cli

add("C23", "fault_enumeration", "the real program run as a process under resource limits and unusable paths; exit status compared with the output file", "Each run is judged on its own; file-size limits at every offset for five inputs.",
    "Valid inputs of 1..65536 bytes (fresh, existing, identical output path, odd names), 0-40 arguments, 11 unusable paths, file-size limits at every output offset with SIGXFSZ ignored and not, /dev/full, address-space limits. Distinct by case description; non-trivial: each.", None, python=cli.run,
    must=["complete_outputs_with_status_0", "failures_reported", "faults_delivered", "argument_counts_rejected", "unusable_requests", "ended_by_signal", "runs_with_closed_descriptors"] + ["unusable_" + w for w in ("missing", "empty", "dir", "fifo", "out_dir", "out_missing_dir")])


# ------------------------------------------------------------------------------ C24
def plan_c24(ctx):
    t = ctx.thorough
    s = ctx.seed
    big = [x for x in big_specs(ctx) if "16777216" not in x and "33600000" not in x]
    W = ["rand,n=%d,s=%d,b=0,seed=%d" % (n, k, s) for n in (1000, 100000, 1000000) for k in (2, 4, 256)] + ["fib,n=1000000,b=97", "tm,n=1048576,s=2,b=0", "morph,n=1000000,k=4,b=0,seed=%d" % s, "per,n=1000000,s=2,p=2,m=0,seed=%d" % s,
         "text,n=1000000,w=300,seed=%d" % s, "mono,n=1000000,s=1,d=0", "mono,n=1000000,s=2,d=3", "tree,k=20000,p=10,q=10,bits=17,v=1,ord=0,lo=9"]
    W += ["alt,n=%d,lo=%d,hi=%d,b=0,seed=%d" % (n, lo, hi, s) for n in (8000, 200000) for lo, hi in ((6, 90), (3, 250), (30, 220))]
    return [Job("o2", "h_stack", "stack", specs=specs(ctx, "big", big), cpu=600, label="large"),
            Job("o0", "h_stack", "stack", specs=specs(ctx, "bigo", W), cpu=600, label="large-O0"),
            Job("o2h", "h_stack", "stack", specs=specs(ctx, "wid", W), cpu=600, label="widths"),
            Job("o2h", "h_stack", "stack", cases=20000 if t else 500, max=3000, label="small"),
            Job("o0", "h_stack", "stack", cases=4000 if t else 150, max=20000, label="small-O0")]


add("C24", "exploration", "high-water mark of a painted stack, guard page below it", "Each call runs on its own painted stack of 4 MiB; the lowest changed byte is compared with the bound.",
    GEN_RULE % "21 families", plan_c24, hang=False, must=["calls_measured", "calls_at_rebased_widths", "file_calls", "cases_with_more_than_1024_lms", "cases_without_lms"])


# ------------------------------------------------------------------------------ C25
def plan_c25(ctx):
    t = ctx.thorough
    s = ctx.seed
    W = ["rand,n=%d,s=%d,b=0,seed=%d" % (n, k, s) for n in (1000, 100000, 400000) for k in (2, 256)] + ["fib,n=300000,b=97", "per,n=200000,s=2,p=2,m=0,seed=%d" % s, "text,n=1000000,w=300,seed=%d" % s,
         "mono,n=1,s=1,d=0", "mono,n=2,s=2,d=3", "mono,n=100000,s=1,d=0", "mono,n=100000,s=256,b=0,d=2", "lms,k=6,len=65536,dup=50,w=3,lo=5,seed=%d" % s, "coll,k=300,len=8,w=60,rep=3,nb=8,seed=%d" % s]
    G = W[:6] + W[9:] + ["text,n=%d,w=30,seed=%d" % (n, s) for n in (10, 500, 30000)]
    return [Job("o2", "h_side", "side", specs=specs(ctx, "wid", W), label="special"),
            Job("o2", "h_side", "user", specs=specs(ctx, "big", large_specs(ctx)), label="large", cpu=300),
            Job("o2", "h_side", "user", cases=2000 if t else 60, max=3000, label="small-user"),
            Job("o2", "h_side", "side", cases=8000 if t else 250, max=3000, label="small"),
            Job("c2", "h_side", "side", cases=1500 if t else 60, max=3000, label="small-clang"),
            Job("o2h", "h_side", "side", cases=6000 if t else 200, max=2000, label="widths"),
            Job("o2", "h_side", "grow", specs=specs(ctx, "grow", G), label="repetition")]


add("C25", "exploration", "snapshots of process and file-system state around every call, compared fact by fact; interposed open calls", "About 170 facts compared around each of twelve kinds of calls per input.",
    GEN_RULE % "21 families" + " Each input goes through twelve kinds of calls: both ownership modes, three output situations, six rejected requests and one refused output; identical calls are repeated 120 times while the address space is watched.", plan_c25, hang=False,
    must=["processes_without_privileges", "facts_compared", "calls_that_threw", "calls_that_returned", "paths_opened_for_writing", "repetitions_with_mappings_watched", "cases_with_more_than_1024_lms", "cases_without_lms"] + ["calls_with_%dbit_values" % w for w in (32, 40, 48, 56, 64)])


# ------------------------------------------------------------------------------ C26
def plan_c26(ctx):
    t = ctx.thorough
    S = ["c,seed=%d,nb=%d,cnt=%d" % (ctx.seed * 1000 + i, 1 + i % 8, 200000 if t else 20000) for i in range(64 if t else 16)]
    A = ["c,seed=%d,nb=%d,cnt=%d" % (ctx.seed * 1000 + 500 + i, 1 + i % 8, 20000 if t else 2000) for i in range(16 if t else 8)]
    return [Job("o2", "h_hash", "codec", specs=specs(ctx, "c", S), label="records"), Job("o0", "h_hash", "codec", specs=specs(ctx, "c0", A), parts=4, label="records-O0"),
            Job("c2", "h_hash", "codec", specs=specs(ctx, "cc", A), parts=4, label="records-clang"), Job("asan", "h_hash", "codec", specs=specs(ctx, "ca", A), parts=4, label="records-asan")]


add("C26", "exploration", "write/read of record fields through the table's accessors, with guarded surroundings", "Lengths, names and links near every power of two, with zero bytes at every position, and random ones; not all 2^56.",
    "Lengths 1..2^56 (without 2), names of 1-8 bytes and 64-bit links, near powers of two, with cleared low or inner bytes, or random, on memory filled with random non-zero bytes. Distinct by sequence of lengths.", plan_c26,
    must=["lengths", "names", "links", "lengths_over_2^32", "lengths_multiple_of_256", "names_over_2^32", "links_over_2^32"])


# ------------------------------------------------------------------------------ C27
def plan_c27(ctx):
    t = ctx.thorough
    s = ctx.seed
    W = ["rand,n=%d,s=%d,b=0,seed=%d" % (n, k, s) for n in (1, 2, 4087, 4088, 4096, 65528, 65536, 65537, 100000, 300000) for k in (2, 256)] + ["mono,n=100000,s=1,d=0", "mono,n=100000,s=256,b=0,d=2", "mono,n=90000,s=2,d=3", "text,n=1000000,w=300,seed=%d" % s]
    return [Job("o2", "h_out", "outs", specs=specs(ctx, "w", W), label="special"),
            Job("o2", "h_out", "outs", specs=specs(ctx, "wb", large_specs(ctx)), label="large", cpu=300),
            Job("o2", "h_out", "outs", cases=6000 if t else 150, max=3000, label="small"),
            Job("c2", "h_out", "outs", cases=1000 if t else 25, max=20000, label="medium-clang")]


add("C27", "exploration", "identity of the output path compared before and after every call; readers at the other end of FIFOs and pipes", "Thirteen kinds of outputs per input, as an unprivileged user.",
    GEN_RULE % "21 families" + " Each input is written to new files under several umasks, existing files of several permissions (also in read-only directories), hard and symbolic links, FIFOs and pipes with slow readers, relative paths, names of odd characters and paths of up to 4095 bytes.", plan_c27, hang=False,
    must=["identities_compared", "contents_checked", "new_files", "symbolic_links", "fifos", "pipes", "readers_that_went_away", "relative_paths", "odd_paths", "long_paths", "outputs_in_read_only_directories", "write_only_outputs"])


# ------------------------------------------------------------------------------ C28
def plan_c28(ctx):
    t = ctx.thorough
    s = ctx.seed
    L = ["rand,n=%d,s=256,seed=%d" % (n, s + i) for i, n in enumerate((4095, 4096, 4097, 8191, 8192, 8193, 20000, 50000, 65536, 131072, 300000))]
    L += ["text,n=%d,w=%d,seed=%d" % (n, 20 + n % 50, s + n) for n in (700, 5000, 9000, 30000, 100000)] + ["rand,n=%d,s=%d,seed=%d" % (4100 + 613 * i, 2 + i, s * 31 + i) for i in range(80 if t else 16)]
    return [Job("o2", "h_file", "keep", specs=specs(ctx, "keep", L), label="special", cpu=300),
            Job("o2", "h_file", "keep", cases=6000 if t else 300, max=3000, label="small"),
            Job("asan", "h_file", "keep", cases=600 if t else 40, max=3000, label="small-asan")]


add("C28", "fault_enumeration", "every file of a directory compared before and after calls that run out of memory or of input", "56 memory limits and output paths per input, and inputs that shrink after their length was taken.",
    GEN_RULE % "21 families" + " Each input is transformed under 8 limits of live heap memory below 6/10 of what the call needs, with 7 kinds of output path (absent, existing, the input itself, links to either, a dangling link), and with the input cut after its length was taken. Non-trivial: a fault was delivered and the call failed; distinct by (input, fault, output).", plan_c28, hang=False,
    must=["calls_without_memory", "short_reads"])


# ------------------------------------------------------------------------------ C30
def plan_c30(ctx):
    import random
    t = ctx.thorough
    R = random.Random(ctx.seed * 7919)

    def masks(n, without):
        L = [1 << b for b in range(15)] + [0x1fff, 0x2fff, 0x7fff & ~0x2000, 0x7fff & ~0x1000]
        while len(L) < n:
            m = R.getrandbits(15) & R.choice((0x7fff, R.getrandbits(15)))
            if m & 0x1000 and m & 0x2000:
                m &= ~R.choice((0x1000, 0x2000))
            L.append(m or 4)
        return ["life,m=%d,seed=%d,k=%d" % (m & ~without or 4, ctx.seed * 100000 + i, R.choice((1, 3, 8))) for i, m in enumerate(L)]
    return [Job("o2", "h_life", "life", specs=specs(ctx, "life", masks(6000 if t else 500, 0)), label="plain"),
            Job("c2", "h_life", "life", specs=specs(ctx, "lifec", masks(1000 if t else 100, 0)), label="clang"),
            # the sanitizer has its own ideas of forks of busy processes and of stacks that are not its own
            Job("asan", "h_life", "life", specs=specs(ctx, "lifea", masks(600 if t else 60, 32 | 64 | 128)), label="asan")]


add("C30", "exploration", "processes that call before main, while they end, in forked children, handlers, coroutines and dying threads, every result judged", "Each case is a process of its own that makes calls at the points of its life a mask names; fifteen points, alone, all together and in random combinations.",
    GEN_RULE % "21 families" + " A process is distinct by its points and inputs; non-trivial: all its points were reached and judged.", plan_c30, hang=False,
    must=["processes", "before_static_objects", "in_static_constructor", "in_thread_destructors", "in_forked_child", "in_child_of_busy_process", "on_own_stack", "in_signal_handler", "during_unwinding",
          "in_static_destructor", "in_exit_handler", "after_static_objects", "in_thread_at_exit", "after_main_thread"],
    assumptions=["the C and C++ runtime libraries are initialised before the first call, and the harness's objects are linked before the library's"])


# ------------------------------------------------------------------------------ C31
def plan_c31(ctx):
    t = ctx.thorough
    s = ctx.seed
    L = ["rand,n=%d,s=%d,seed=%d" % (n, a, s) for n, a in ((2500000, 2), (3000000, 256), (9000000, 200))] + ["text,n=6000000,w=3000,seed=%d" % s, "mono,n=20000000,s=3,d=1", "per,n=12000000,s=3,p=7,m=0,seed=%d" % s] + \
        ["rand,n=%d,s=5,seed=%d" % (n, s + n) for n in (4087, 4088, 4089, 8184, 65528, 65536, 131064, 400000, 1000000)]
    if t:
        L += ["rand,n=%d,s=%d,seed=%d" % (2000000 + 317 * i, 2 + i, s * 77 + i) for i in range(24)]
    return [Job("o2", "h_crash", "crash", specs=specs(ctx, "crash", L), label="large", cpu=600),
            Job("o2", "h_crash", "crash", cases=300 if t else 12, max=30000, label="small")]


add("C31", "fault_enumeration", "the transforming process stopped at random moments, or killed at exact offsets of its output, and the files compared with before and with the complete output", "Four kinds of output path; moments while computing and while writing.",
    GEN_RULE % "21 families" + " Each input is transformed to a new file, to longer and shorter existing files and in place; every look at the files while the process is stopped counts as one moment.", plan_c31, hang=False,
    must=["stops_before_the_output_changed", "partial_outputs", "killed_while_writing", "moments_observed"],
    assumptions=["what the kernel shows of the files of a stopped process is what would be left if it were killed then (not: if the machine lost power)"])


# ------------------------------------------------------------------------------ C10
def plan_c10(ctx):
    t = ctx.thorough
    s = ctx.seed
    M31, M32 = (1 << 31) + 5 + s % 7, (1 << 32) + 5 + s % 7
    # two equal substrings of more than 2^31 bytes, through the file interface; one substring of more than
    # 2^32 bytes; a head of more than 2^32 bytes and no S*-substring at all
    big = [("b,r=9.1_0.%d_5.1_0.%d_5.1_0.1_9.1,how=file" % (M31, M31), 8), ("b,pre=30000,r=9.1_0.%d_5.1_0.1_9.1,post=30000,seed=%d,how=str" % (M32, s), 9), ("b,r=0.%d_255.3,how=str" % M32, 9)]
    if t:
        big += [("b,r=9.1_0.%d_5.1_0.%d_4.1,how=free" % (M31, M31), 18), ("b,r=7.%d,how=free" % M32, 14), ("b,r=9.1_0.%d_5.1_0.%d_5.1_0.1_9.1,how=str" % (M32, M32), 22),
                ("b,r=9.1_3.4_0.%d_5.1_3.%d_0.1_9.1,how=file" % (M31, M31), 14), ("b,r=255.%d_0.1_255.1,how=str" % M31, 12), ("b,r=9.%d_0.%d_9.1,how=file" % (M31, M31), 14)]
    J = [Job("o2", "h_big", "big", parts=1, heavy=h, cpu=3000 if t else 600, wall=7200 if t else 850, hang_once=True, one=x, label="big") for x, h in big]
    J.append(Job("o2", "h_big", "big", parts=2, specs=specs(ctx, "sm", ["b,pre=%d,r=9.1_0.%d_5.1_0.1_9.1,post=%d,seed=%d,how=%s" % (i * 7, i * 50 + 1, i * 11, s * 100 + i, ("str", "file", "free")[i % 3]) for i in range(40)] + ["b,rnd=%d,how=%s" % (s * 10000 + i, ("str", "file", "free")[i % 3]) for i in range(3000)]), label="small"))
    if t: # the same with the stored positions rebased through the hook to the wider kinds of value
        for k, how in ((46, "str"), (54, "str"), (62, "free")):
            J.append(Job("o2h", "h_big", "big", parts=1, heavy=9, cpu=3000, wall=7200, hang_once=True, one="b,r=0.%d_255.3,how=%s,wk=%d" % (M32, how, k), label="wide%d" % k))
    if t:
        J.append(Job("o2", "h_big", "per", parts=1, heavy=20, cpu=7000, wall=7200, one="b,n=%d" % ((1 << 32) + 4000), label="many-substrings"))
    return J


add("C10", "exploration", "runs of the real code on inputs of 2^32+ bytes, decoded run by run", "Three structured inputs of more than 2^32 bytes per quick run (both interfaces, head, single substring and equal substrings that long); arbitrary contents at that size are not covered.",
    "Run-structured inputs: lengths just above 2^31 and 2^32 in the head, in one S*-substring and in two equal ones; 3000 small inputs of the same shape. Distinct by specification; non-trivial: each.", plan_c10,
    must=["inputs_over_2^32", "substrings_over_2^31", "substrings_over_2^32", "heads_over_2^32", "terminator_rows_over_2^32", "files", "strings"],
    assumptions=["about 26 GB of memory are available (processes are serialised beyond that)", "counts of S*-substrings beyond 2^31 are exercised in the thorough tier only, beyond 2^32 not at all (memory)"])
