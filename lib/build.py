"""Builds of the code under test (from REPO's working tree) and of the harnesses.

Everything is keyed by the content of the sources, headers and flags, so a stale binary
is never used; the cache lives in /verif/.build (git-ignored) or, if that cannot be written,
in a temporary directory."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HOOK = "-DFLBWT_VERIF_HOOKS"

UB = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
# compiler, flags for everything, flags for the code under test only
FLAVORS = {
    "o0":    ("g++", ["-g", "-O0"], []),
    "o2":    ("g++", ["-g", "-O2"], []),
    "o3":    ("g++", ["-g", "-O3"], []),
    "c2":    ("clang++", ["-g", "-O2"], []),
    "asan":  ("g++", ["-g", "-O1"] + UB, []),
    "asanc": ("clang++", ["-g", "-O1"] + UB, []),
    "msan":  ("clang++", ["-g", "-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fsanitize-memory-track-origins=1"], []),
    "tsan":  ("g++", ["-g", "-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"], []),
    "pic":   ("g++", ["-g", "-O2", "-fPIC"], []),
    "cov":   ("clang++", ["-g", "-O1"], ["-fsanitize-coverage=trace-pc"]),
    "o2h":   ("g++", ["-g", "-O2", HOOK], []),
    # the rebased positions make bwp_base an address outside the buffer, so the pointer
    # arithmetic check (and only that one) is off in the hooked sanitizer build
    "asanh": ("g++", ["-g", "-O1", HOOK] + UB + ["-fno-sanitize=pointer-overflow"], []),
    "tsanh": ("g++", ["-g", "-O1", HOOK, "-fsanitize=thread", "-fno-omit-frame-pointer"], []),
    "msanh": ("clang++", ["-g", "-O1", HOOK, "-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fsanitize-memory-track-origins=1"], []),
    # for memcheck, which confirms what MemorySanitizer reports
    "mc":    ("g++", ["-g", "-O1", "-DVERIF_MEMCHECK"], []),
    "mch":   ("g++", ["-g", "-O1", "-DVERIF_MEMCHECK", HOOK], []),
    "fuzz":  ("clang++", ["-g", "-O1"] + UB + ["-fno-sanitize=function"], ["-fsanitize=fuzzer-no-link"]),
}
# functions of the code under test that a harness replaces by a stand-in
STAND_IN = {"h_hdr": ["_ZN5flbwt10bwt_stringEPhmb"]}
# extra link flags of single harnesses in single flavors
WRAP_ALLOC = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]


def link_flags(harness, flavor):
    f = []
    if flavor.startswith("asan") and harness in ("h_mem", "h_file", "h_hist", "h_queue"):
        f += WRAP_ALLOC
    if harness == "h_width":
        f += ["-Wl,--wrap=" + n for n in ("_ZN5flbwt10sais_32bitEPKhPimmmh", "_ZN5flbwt10sais_40bitEPKhPjPaS2_S3_mmmh", "_ZN5flbwt10sais_48bitEPKhPjPsS2_S3_mmmh",
                                          "_ZN5flbwt10sais_56bitEPKhPjPtPaS2_S3_S4_mmmh", "_ZN5flbwt10sais_64bitEPKhPlmmmh")]
    if harness == "h_steps":
        f += ["-Wl,--wrap=" + n for n in ("memcpy", "memmove", "memset", "memcmp", "bcmp", "memchr", "strlen")]
    if harness == "h_file":
        f += ["-Wl,--wrap=" + n for n in ("fread", "__fread_chk", "fseek", "fseeko", "ftell", "ftello", "lseek", "stat", "fstat")]
    return f



class BuildError(Exception):
    pass


_dir = None


def build_dir():
    global _dir
    if _dir is None:
        d = os.path.join(VERIF, ".build")
        try:
            os.makedirs(d, exist_ok=True)
            t = tempfile.NamedTemporaryFile(dir=d)
            t.close()
        except OSError:
            d = tempfile.mkdtemp(prefix="verif-build-")
        _dir = d
        prune(d)
    return _dir


def prune(d, keep=400, limit=3 << 30):
    """drop the oldest cached files once there are too many"""
    try:
        ent = sorted((os.stat(p).st_mtime, p, os.stat(p).st_size) for p in glob.glob(os.path.join(d, "*.o")) + glob.glob(os.path.join(d, "*.bin")))
        while len(ent) > keep or sum(e[2] for e in ent) > limit:
            os.unlink(ent.pop(0)[1])
    except OSError:
        pass


def read(p):
    with open(p, "rb") as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little") + p)
    return h.hexdigest()[:24]


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))


def tree_blob(*dirs):
    out = []
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".inc", ".ipp", ".tpp")):
                    p = os.path.join(root, f)
                    out.append(p.encode() + b"\0" + read(p))
    return b"\1".join(out)


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))


def compile_obj(cxx, flags, src):
    blob = tree_blob(os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "harness"))
    key = digest(cxx, " ".join(flags), src, read(src), blob)
    obj = os.path.join(build_dir(), key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run([cxx] + flags + ["-c", src, "-o", tmp], "compiling")
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def weaken(obj, symbols):
    out = obj[:-2] + "-weak-%s.o" % digest(*symbols)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(["objcopy"] + ["--weaken-symbol=" + x for x in symbols] + [obj, tmp], "objcopy")
        os.replace(tmp, out)
    return out


def build(flavor, harness, pool=None):
    """returns the path of the harness binary linked with the code under test"""
    cxx, flags, only = FLAVORS[flavor]
    inc = ["-I" + os.path.join(REPO, "include")]
    srcs = sources()
    if not srcs:
        raise BuildError("no sources in %s/src" % REPO)
    hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
    jobs = [(cxx, ["-std=c++11", "-w"] + flags + only + inc, s) for s in srcs]
    hextra = ["-fsanitize=fuzzer-no-link"] if flavor == "fuzz" else []
    # only the code under test is judged for undefined behaviour
    hflags = [f.replace("address,undefined", "address") for f in flags if f != "-fno-sanitize=pointer-overflow"]
    jobs.append((cxx, ["-std=c++14", "-Wall"] + hflags + hextra + inc + ["-I" + os.path.join(VERIF, "harness")], hsrc))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    if harness in STAND_IN:
        objs[:-1] = [weaken(o, STAND_IN[harness]) for o in objs[:-1]]
    link = link_flags(harness, flavor) + (["-fsanitize=fuzzer"] if flavor == "fuzz" else [])
    key = digest(cxx, " ".join(flags), " ".join(link), *objs)
    out = os.path.join(build_dir(), "%s-%s-%s.bin" % (harness, flavor, key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run([cxx] + flags + objs + link + ["-lpthread", "-o", tmp], "linking")
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out


def build_cli(flavor="o2"):
    """the example program, from examples/bwt.cpp and the library sources"""
    cxx, flags, only = FLAVORS[flavor]
    inc = ["-I" + os.path.join(REPO, "include")]
    srcs = sources() + sorted(glob.glob(os.path.join(REPO, "examples", "*.cpp")))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_obj(cxx, ["-std=c++11", "-w"] + flags + only + inc, s), srcs))
    out = os.path.join(build_dir(), "cli-%s-%s.bin" % (flavor, digest(cxx, " ".join(flags), *objs)))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run([cxx] + flags + objs + ["-o", tmp], "linking")
        os.replace(tmp, out)
    return out
