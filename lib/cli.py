"""C23: the command-line program, run as a process under faults, judged by its exit status."""
import os, random, resource, shutil, signal, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
import build
from engine import Inconclusive


def make_input(d):
    r = random.Random(d["seed"])
    n, s, b, fam = d["n"], d["s"], d["b"], d["fam"]
    if fam == "rand":
        return bytes(b + r.randrange(s) for _ in range(n))
    if fam == "runs":
        o = bytearray()
        while len(o) < n:
            o += bytes([b + r.randrange(s)]) * r.randrange(1, 40)
        return bytes(o[:n])
    if fam == "per":
        p = bytes(b + r.randrange(s) for _ in range(r.randrange(1, 9)))
        return (p * (n // len(p) + 1))[:n]
    if fam == "same":
        return bytes([b]) * n
    w = [bytes(97 + r.randrange(26) for _ in range(r.randrange(1, 8))) for _ in range(30)]
    o = b""
    while len(o) < n:
        o += r.choice(w) + b" "
    return o[:n]


def complete(t, out):
    """is `out` the rank header plus transform of t?"""
    n = len(t)
    if len(out) != n + 8:
        return False
    last = int.from_bytes(out[:8], "big")
    L = out[8:]
    if last > n:
        return False
    if n <= 1200:
        sa = sorted(range(n + 1), key=lambda i: t[i:])
        return last == sa.index(0) and L == bytes(t[i - 1] for i in sa if i)
    cnt = [0] * 256
    for c in L:
        cnt[c] += 1
    pos, acc = [0] * 256, 1
    for c in range(256):
        pos[c] = acc
        acc += cnt[c]
    lf = [0] * (n + 1)
    rows = [0] * (n + 1)
    for i in range(n + 1):
        if i == last:
            continue
        c = L[i if i < last else i - 1]
        rows[i] = c
        lf[i] = pos[c]
        pos[c] += 1
    row = 0
    for k in range(n - 1, -1, -1):
        if row == last or rows[row] != t[k]:
            return False
        row = lf[row]
    return row == last


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs + files:
            p = os.path.join(root, f)
            st = os.lstat(p)
            c = open(p, "rb").read() if os.path.isfile(p) and not os.path.islink(p) else None
            out[os.path.relpath(p, d)] = (st.st_mode, st.st_ino, st.st_size, st.st_mtime_ns, c)
    return out


def run_case(ctx, binary, d):
    if ctx.stop:
        return
    tmp = tempfile.mkdtemp(dir=ctx.tmp)
    keep = []
    try:
        k = d["kind"]
        t = make_input(d)
        P = lambda x: os.path.join(tmp, x)
        for name in d.get("files", ["in"]):
            with open(P(name), "wb") as f:
                f.write(t)
        lim, sig = d.get("fsize"), d.get("xfsz", "default")

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if lim is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                # Python ignores the signal itself; both dispositions occur in practice
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if sig == "ignore" else signal.SIG_DFL)
            if d.get("as"):
                resource.setrlimit(resource.RLIMIT_AS, (d["as"], d["as"]))
            for fd in d.get("closed", []):
                os.close(fd)
        inp, outp = d.get("in", "in"), d.get("out", "out")
        if k == "unusable":
            w = d["what"]
            if w == "missing":
                inp = "nothere"
            elif w == "empty":
                open(P("empty"), "wb").close()
                inp = "empty"
            elif w == "dir":
                os.mkdir(P("dir"))
                inp = "dir"
            elif w == "fifo":
                os.mkfifo(P("fifo"))
                fd = os.open(P("fifo"), os.O_RDWR)  # so that opening it for reading does not block
                os.write(fd, t[:100])
                keep.append(fd)
                inp = "fifo"
            elif w == "null":
                inp = "/dev/null"
            elif w == "under-file":
                inp = "in/x"
            elif w == "noname":
                inp = ""
            elif w == "out-dir":
                os.mkdir(P("dir"))
                outp = "dir"
            elif w == "out-missing-dir":
                outp = "no/such/out"
            elif w == "out-under-file":
                outp = "in/out"
            elif w == "out-noname":
                outp = ""
        if d.get("old") is not None and "/" not in outp:
            with open(P(outp), "wb") as f:
                f.write(b"\x5a" * d["old"])
        before = snapshot(tmp)
        args = d["args"] if k == "args" else [inp, outp]
        try:
            r = subprocess.run([binary] + args, cwd=tmp, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, timeout=60)
        except subprocess.TimeoutExpired:
            raise Inconclusive("the program did not end within 60 s: %s" % d)
        rc = r.returncode
        desc = "%s args=%s n=%d%s%s%s" % (k, args, len(t), " closed descriptors %s" % d["closed"] if d.get("closed") else "", " file-size limit %s (%s)" % (lim, sig) if lim is not None else "", " address-space limit %d" % d["as"] if d.get("as") else "")

        def bad(key, msg):
            ctx.report(key, desc.replace(" ", "_"), "%s: %s" % (desc, msg), {"property": "C23", "python": d})
        if k == "args":
            if rc == 0:
                bad("args-status", "exit status 0 with %d arguments" % len(args))
            if not (r.stdout + r.stderr).strip():
                bad("args-usage", "no usage text with %d arguments" % len(args))
            if snapshot(tmp) != before:
                bad("args-files", "files changed with %d arguments" % len(args))
            ctx.count("argument_counts_rejected")
        elif k == "unusable":
            if rc == 0:
                bad("unusable-status", "exit status 0 although %s" % d["what"])
            ctx.count("unusable_requests")
            ctx.count("unusable_" + d["what"].replace("-", "_"))
        else:
            if outp == "/dev/full":
                ok = False
            else:
                try:
                    with open(P(outp), "rb") as f:
                        ok = complete(t, f.read())
                except OSError:
                    ok = False
            if rc == 0 and not ok:
                bad("false-success", "exit status 0 but the output is not the complete transform")
            if rc != 0 and ok:
                bad("false-failure", "exit status %d although the output is the complete transform" % rc)
            if k == "ok" and rc != 0:
                bad("false-failure", "exit status %d for a valid request: %s" % (rc, r.stderr[-300:]))
            if d.get("closed"):
                ctx.count("runs_with_closed_descriptors")
            ctx.count("complete_outputs_with_status_0" if rc == 0 else "failures_reported")
            if k == "fault" and rc != 0:
                ctx.count("faults_delivered")
            if rc < 0:
                ctx.count("ended_by_signal")
        with ctx.lock:
            ctx.evals += 1
            ctx.ids.add(hash(repr(sorted(d.items(), key=str))))
            if ctx.evals % 401 == 3 and len(ctx.samples) < 24:
                ctx.samples.append("%s -> exit status %d" % (desc, rc))
    finally:
        for fd in keep:
            os.close(fd)
        shutil.rmtree(tmp, ignore_errors=True)


def cases(ctx):
    r = random.Random(ctx.seed)
    t = ctx.thorough
    C = []

    def base(n, fam=None, **k):
        s = r.choice([1, 2, 3, 26, 256])
        d = {"n": n, "s": s, "b": r.choice([0, 97, 256 - s]) if s < 100 else 0, "fam": fam or r.choice(["rand", "runs", "per", "same", "text"]), "seed": r.randrange(1 << 30)}
        d.update(k)
        return d
    for n in list(range(1, 40)) + [255, 256, 257, 4087, 4088, 4096, 4097, 20000, 65536] + [r.randrange(1, 1200) for _ in range(2000 if t else 150)]:
        C.append(base(n, kind="ok"))
        if n < 300:
            C.append(base(n, kind="ok", old=r.choice([0, n, n + 8, 5000])))
            C.append(base(n, kind="ok", out="in"))
    for name in ("-h", "--help", "-", "a b", "'", "*", "ü", "-o", "--version", "\\n"):
        C.append(base(50, kind="ok", files=[name], **{"in": name, "out": "out"}))
        C.append(base(50, kind="ok", files=["in"], **{"in": "in", "out": name}))
    for a in ([], ["in"], ["in", "out", "x"], ["in", "out", "out2", "out3"], ["--help"], ["-h"], ["nothere"], ["in", "in", "in"], ["in", "out", ""], [""], ["in"] * 40):
        C.append(base(100, kind="args", args=a))
    for w in ("missing", "empty", "dir", "fifo", "null", "under-file", "noname", "out-dir", "out-missing-dir", "out-under-file", "out-noname"):
        for _ in range(10 if t else 2):
            C.append(base(r.randrange(1, 300), kind="unusable", what=w))
    for _ in range(200 if t else 6):
        C.append(base(r.choice([1, 2, 30, 300, 5000, 70000]), kind="fault", out="/dev/full"))
    for n, fam in [(1, "same"), (2, "rand"), (30, "text"), (120, "rand"), (80, "same")] + ([(600, "rand"), (700, "text")] if t else []):
        b = base(n, fam)
        for lim in range(0, n + 10):
            for x in ("ignore", "default"):
                C.append(dict(b, kind="fault", fsize=lim, xfsz=x))
    for n in (4087, 4088, 4089, 8192, 20000, 65536):
        b = base(n)
        for lim in sorted({0, 1, 7, 8, 9, 4095, 4096, 4097, n - 1, n, n + 1, n + 7, n + 8, n + 9, r.randrange(n)}):
            C.append(dict(b, kind="fault", fsize=lim, xfsz=r.choice(["ignore", "default"])))
    for n, fam in [(300000, "rand"), (700000, "text"), (1 << 20, "rand"), (1500000, "per")]:
        b = base(n, fam)
        C.append(dict(b, kind="ok"))
        C.append(dict(b, kind="ok", old=n + 100))
        for lim in (0, 8, 65536, n // 2, n, n + 7):
            C.append(dict(b, kind="fault", fsize=lim, xfsz=r.choice(["ignore", "default"])))
    # started with standard descriptors closed, so that the files take their numbers
    for c in ([0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2]):
        for n in (1, 300, 70000):
            C.append(base(n, kind="ok", closed=c))
            C.append(base(n, kind="fault", out="/dev/full", closed=c))
            C.append(base(n, kind="fault", fsize=r.randrange(n + 8), xfsz="ignore", closed=c))
        C.append(base(100, kind="unusable", what="missing", closed=c))
        C.append(base(100, kind="unusable", what="out-missing-dir", closed=c))
    b = base(120000, "rand")
    for a in range(3 << 20, 24 << 20, (1 << 17) if t else (3 << 18)):
        C.append(dict(b, **{"kind": "fault", "as": a}))
    return C


def run(ctx, only=None):
    binary = build.build_cli("o2")
    if only is not None:
        run_case(ctx, binary, only)
        return
    errs = []

    def go(d):
        try:
            run_case(ctx, binary, d)
        except Exception as e:
            errs.append(e)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, cases(ctx)))
    if errs and not ctx.violations:
        raise errs[0]
