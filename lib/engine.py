"""Runs the jobs of a check, turns what the harnesses and sanitizers report into a verdict,
and writes evidence and replay files."""
import array, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import build
from build import VERIF, REPO

KNOWN = os.path.join(VERIF, "known_findings.txt")

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "MSAN_OPTIONS": "exitcode=77:allocator_may_return_null=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=77:allocator_may_return_null=1:halt_on_error=1:second_deadlock_stack=1:history_size=4",
}


class Job:
    """one harness run, split over `parts` processes"""

    def __init__(self, flavor, harness, mode, parts=8, cpu=60, wall=600, heavy=0, env=None, runner=None, label=None, hang_once=False, **args):
        self.flavor, self.harness, self.mode, self.parts = flavor, harness, mode, parts
        self.cpu, self.wall, self.heavy = cpu, wall, heavy  # heavy: GiB of memory per process
        self.env, self.args, self.runner = env or {}, args, runner
        self.hang_once = hang_once  # long-running cases: the limit is several times the usual time, no second run
        self.label = label or "%s/%s/%s" % (harness, mode, flavor)


class Check:
    def __init__(self, pid, level, technique, note, rule, plan, must=(), hang=True, assumptions=(), post=None, python=None):
        self.pid, self.level, self.technique, self.note, self.rule = pid, level, technique, note, rule
        self.plan, self.must, self.hang, self.assumptions, self.post, self.python = plan, must, hang, list(assumptions), post, python


class Violation(Exception):
    def __init__(self, key, msg, replay):
        Exception.__init__(self, msg)
        self.key, self.msg, self.replay = key, msg, replay


class Inconclusive(Exception):
    pass


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) spec=(\S+)\s*(.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


class Context:
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % check.pid)
        os.chmod(self.tmp, 0o711)  # some harnesses drop root and still need their scratch directory
        self.evals = 0
        self.ids = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.jobs_done = []
        self.procs = set()
        self.lock = threading.Lock()
        self.building = threading.Lock()
        self.stop = False
        self.mem = threading.Condition()
        self.mem_used = 0

    # ---- statistics -------------------------------------------------------------
    def add_stats(self, st, ids=()):
        with self.lock:
            self.evals += st.get("evaluations", 0)
            for k, v in st.get("counters", {}).items():
                self.counters[k] = max(self.counters.get(k, 0), v) if k.startswith("max_") else self.counters.get(k, 0) + v
            for s in st.get("samples", [])[:1 if self.samples else 3]:
                if len(self.samples) < 24:
                    self.samples.append(s)
            self.ids.update(ids)

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    # ---- findings ---------------------------------------------------------------
    def report(self, key, spec, msg, replay):
        """a violation was observed; known findings are only counted"""
        for k, s, text in known_findings(self.check.pid):
            if k == key and s == spec:
                with self.lock:
                    if (k, s) not in [h[:2] for h in self.known_hits]:
                        self.known_hits.append((k, s, text))
                return
        with self.lock:
            self.violations.append({"key": key, "spec": spec, "msg": msg, "replay": replay})
            self.stop = True
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    # ---- one process ------------------------------------------------------------
    def spawn(self, cmd, env=None, wall=600, cwd=None, stdin=None, preexec=None, limit_core=True):
        out = tempfile.TemporaryFile()
        err = tempfile.TemporaryFile()
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if preexec:
                preexec()
        p = subprocess.Popen(cmd, stdout=out, stderr=err, stdin=stdin or subprocess.DEVNULL, env=e, cwd=cwd or self.tmp, start_new_session=True, preexec_fn=pre)
        with self.lock:
            self.procs.add(p)
        timed_out = False
        try:
            p.wait(wall)
        except subprocess.TimeoutExpired:
            timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        with self.lock:
            self.procs.discard(p)
        out.seek(0)
        err.seek(0)
        return p.returncode, out.read().decode("utf-8", "replace"), err.read().decode("utf-8", "replace")[-60000:], timed_out


def san_key(err):
    """condense a sanitizer report into error kind and innermost library function"""
    kind = None
    m = re.search(r"runtime error: (.*)", err)
    if m:
        kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:60]
    m2 = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    if m2 and not kind:
        kind = "%s:%s" % (m2.group(1), m2.group(2))
    if not kind:
        m3 = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
        if m3:
            kind = "terminate:" + m3.group(1)
    fr = re.search(r"(/src/\w+\.cpp|/include/\w+\.hpp)", err)
    return re.sub(r"\s+", "_", (kind or "crash") + ("@" + fr.group(1).split("/")[-1] if fr else ""))


def excerpt(err):
    lines = err.strip().splitlines()
    for i, l in enumerate(lines):
        if "runtime error:" in l or "ERROR: " in l or "WARNING: " in l or "terminate called" in l:
            return "\n".join(lines[i:i + 40])
    return "\n".join(lines[-25:])


def write_replay(pid, data):
    d = os.path.join(VERIF, "replays")
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = tempfile.gettempdir()
    name = "%s-%s.json" % (pid, hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def unit_cmd(binary, job, args, status=None, ids=None, tmp=None):
    cmd = [binary, job.mode]
    for k, v in args.items():
        cmd += ["--" + k.replace("_", "-"), str(v)]
    cmd += ["--cpu", str(job.cpu)]
    if tmp:
        cmd += ["--tmp", tmp]
    if status:
        cmd += ["--status", status]
    if ids:
        cmd += ["--ids", ids]
    return cmd


def current_spec(status):
    try:
        d = open(status, "rb").read()
        return d[8:8 + 4096].split(b"\0")[0].decode("utf-8", "replace")
    except OSError:
        return ""


MEMCHECK = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no"]


def memcheck(ctx, job, args, spec, part):
    """MemorySanitizer cannot see what precompiled library code (libstdc++) writes; memcheck can. A report
    counts when memcheck confirms it for the same case. Otherwise the job is done with memcheck, on fewer
    cases. Returns whether the report was confirmed."""
    with ctx.building:
        binary = build.build("mc" + job.flavor[4:], job.harness)
    j = Job("mc" + job.flavor[4:], job.harness, job.mode, cpu=job.cpu * 40, wall=job.wall, env=job.env, label=job.label + "-memcheck", runner=MEMCHECK)
    a = {k: v for k, v in args.items() if k not in ("specs", "cases", "part", "parts")}
    a["one"] = spec
    wd = tempfile.mkdtemp(dir=ctx.tmp)
    rc, out, err, to = ctx.spawn(MEMCHECK + unit_cmd(binary, j, a, tmp=wd), env=job.env, wall=job.wall, cwd=wd)
    shutil.rmtree(wd, ignore_errors=True)
    if rc == 77:
        return True
    ctx.count("reports_not_confirmed_by_memcheck", 1)
    a = dict(args)
    if "cases" in a:
        a["cases"] = max(int(a["cases"]) // 20, 10)
    if "specs" in a:
        lines = open(a["specs"]).read().splitlines()[::6]
        a["specs"] = os.path.join(ctx.tmp, "mc-%d-%d" % (id(job), part))
        with open(a["specs"], "w") as f:
            f.write("\n".join(lines) + "\n")
    run_unit(ctx, j, binary, a, part)
    return False


def run_unit(ctx, job, binary, args, part, attempt=0):
    if ctx.stop:
        return
    tag = "%s-%s-%s-%d-%d-%d" % (job.harness, job.mode, job.flavor, id(job) % 100000, part, attempt)
    status = os.path.join(ctx.tmp, tag + ".status")
    ids = os.path.join(ctx.tmp, tag + ".ids")
    wd = os.path.join(ctx.tmp, tag)
    os.makedirs(wd, exist_ok=True)
    with ctx.mem:
        while job.heavy and ctx.mem_used and ctx.mem_used + job.heavy > 26 and not ctx.stop:
            ctx.mem.wait(1)
        ctx.mem_used += job.heavy
    try:
        if ctx.stop:
            return
        cmd = (job.runner or []) + unit_cmd(binary, job, args, status, ids, wd)
        rc, out, err, timed_out = ctx.spawn(cmd, env=job.env, wall=job.wall, cwd=wd)
    finally:
        with ctx.mem:
            ctx.mem_used -= job.heavy
            ctx.mem.notify_all()
        shutil.rmtree(wd, ignore_errors=True)
    if ctx.stop:
        return
    spec = current_spec(status)
    base = {"property": ctx.check.pid, "flavor": job.flavor, "harness": job.harness, "mode": job.mode, "args": {k: v for k, v in args.items() if k not in ("specs", "out")},
            "cpu": job.cpu, "env": job.env, "spec": spec}
    stat = re.search(r"^STAT (\{.*\})$", out, re.M)
    if rc == 0 and stat:
        a = array.array("Q")
        if os.path.exists(ids):
            b = open(ids, "rb").read()
            a.frombytes(b)
            os.unlink(ids)
        ctx.add_stats(json.loads(stat.group(1)), a)
        with ctx.lock:
            ctx.jobs_done.append(job.label)
        return
    m = re.search(r"^VIOL key=(\S+) spec=(.*?) msg=(.*)$", out, re.M)
    if rc == 3 and m:
        base.update(key=m.group(1), spec=m.group(2), msg=m.group(3))
        ctx.report(m.group(1), m.group(2), m.group(3), base)
        # a known finding must not hide the rest of this worker's cases: continue elsewhere
        return
    if timed_out:
        raise Inconclusive("%s part %d: wall-clock watchdog (%d s) fired at spec %s" % (job.label, part, job.wall, spec))
    if rc == 4:
        if job.hang_once and ctx.check.hang:
            base.update(key="hang", msg="no return within %d CPU seconds" % job.cpu)
            ctx.report("hang", spec, base["msg"], base)
            return
        if attempt == 0 and spec:
            j2 = Job(job.flavor, job.harness, job.mode, cpu=job.cpu * 2, wall=job.wall, env=job.env, label=job.label)
            a2 = {k: v for k, v in args.items() if k not in ("specs",)}
            a2["one"] = spec
            cmd = unit_cmd(binary, j2, a2, status, None, ctx.tmp)
            rc2, out2, err2, to2 = ctx.spawn(cmd, env=job.env, wall=job.wall)
            if rc2 == 4:
                if ctx.check.hang:
                    base.update(key="hang", msg="no return within %d CPU seconds, twice" % job.cpu)
                    ctx.report("hang", spec, base["msg"], base)
                    return
                raise Inconclusive("%s: no return within %d CPU seconds at spec %s (not this property)" % (job.label, job.cpu, spec))
            raise Inconclusive("%s: CPU limit fired once at spec %s but not again" % (job.label, spec))
        raise Inconclusive("%s: CPU limit" % job.label)
    if rc == -signal.SIGKILL:
        if attempt == 0:
            return run_unit(ctx, job, binary, args, part, 1)
        raise Inconclusive("%s part %d was killed twice (memory?)" % (job.label, part))
    if rc == 2 or rc in (126, 127) or rc == 0:
        raise Inconclusive("%s part %d: harness error (exit %s): %s %s" % (job.label, part, rc, err[-1500:], out[-500:]))
    if not spec:
        raise Inconclusive("%s part %d: ended with %d before its first case: %s" % (job.label, part, rc, err[-1500:]))
    # signal or sanitizer report
    if job.flavor.startswith("msan") and "WARNING: MemorySanitizer" in err and not memcheck(ctx, job, args, spec, part):
        return
    key = san_key(err) if rc > 0 or "Sanitizer" in err or "terminate" in err else "signal-%d" % -rc
    msg = "process ended with %s at spec %s\n%s" % ("signal %d" % -rc if rc < 0 else "status %d" % rc, spec, excerpt(err))
    base.update(key=key, msg=msg)
    ctx.report(key, spec, msg, base)


def run_jobs(ctx, jobs, workers=8):
    bins = {}
    need = sorted({(j.flavor, j.harness) for j in jobs})
    for f, h in need:
        bins[(f, h)] = build.build(f, h)
    units = []
    for n, j in enumerate(jobs):
        for part in range(j.parts):
            a = dict(j.args)
            if "one" not in a:
                a["part"], a["parts"] = part, j.parts
                a.setdefault("seed", ctx.seed * 1009 + n * 31)
            units.append((j, a, part))
    units.sort(key=lambda u: -u[0].heavy)
    errs = []

    def go(u):
        try:
            run_unit(ctx, u[0], bins[(u[0].flavor, u[0].harness)], u[1], u[2])
        except Exception as e:  # reported below; a violation found elsewhere takes precedence
            errs.append(e)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(go, units))
    if errs and not ctx.violations:
        raise errs[0]


def finish(ctx, wall):
    c = ctx.check
    missing = [m for m in c.must if not ctx.counters.get(m)]
    cov = {"evaluations": ctx.evals, "distinct_nontrivial": len(ctx.ids), "rule": c.rule, "samples": ctx.samples or ["none"],
           "counters": dict(sorted(ctx.counters.items()))}
    if ctx.known_hits:
        cov["known_findings_seen"] = [list(h) for h in ctx.known_hits]
    ev = {"property": c.pid, "tier": ctx.tier, "seed": ctx.seed, "level": c.level, "coverage": cov,
          "assumptions": c.assumptions, "wall_s": round(wall, 2), "violations": len(ctx.violations)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, c.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return missing


def check(pid, tier, seed):
    import checks
    if pid not in checks.CHECKS:
        print("no check for %s" % pid)
        return 2
    c = checks.CHECKS[pid]
    ctx = Context(c, tier, seed)
    try:
        try:
            if c.plan:
                run_jobs(ctx, c.plan(ctx))
            if c.python and not ctx.violations:
                c.python(ctx)
            if c.post and not ctx.violations:
                c.post(ctx)
        except Exception as e:
            if not ctx.violations:
                finish(ctx, time.time() - ctx.t0)
                print("ERROR %s: %s: %s" % (pid, type(e).__name__, e))
                if not isinstance(e, (Inconclusive, build.BuildError)):
                    import traceback
                    traceback.print_exc()
                return 2
        missing = finish(ctx, time.time() - ctx.t0)
        for k, s, text in ctx.known_hits:
            print("KNOWN-FINDING: property=%s key=%s spec=%s %s" % (pid, k, s, text))
        if ctx.violations:
            v = ctx.violations[0]
            path = write_replay(pid, v["replay"])
            print("%s: key=%s spec=%s\n%s" % (pid, v["key"], v["spec"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if missing:
            print("ERROR %s: the run never observed: %s" % (pid, ", ".join(missing)))
            return 2
        print("OK %s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, seed, ctx.evals, len(ctx.ids), time.time() - ctx.t0))
        return 0
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


def replay(path):
    """runs the recorded case again: exit 1 if it still fails, 0 if not"""
    r = json.load(open(path))
    import checks
    c = checks.CHECKS[r["property"]]
    ctx = Context(c, "quick", 1)
    try:
        if r.get("python"):
            c.python(ctx, only=r["python"])
            bad = bool(ctx.violations)
            for v in ctx.violations:
                print(v["msg"])
        else:
            b = build.build(r["flavor"], r["harness"])
            job = Job(r["flavor"], r["harness"], r["mode"], cpu=r["cpu"], env=r["env"])
            args = dict(r["args"])
            tries = [dict((k, v) for k, v in args.items() if k not in ("part", "parts", "cases")), args]
            tries[0]["one"] = r["spec"]
            bad = False
            for a in tries:
                rc, out, err, to = ctx.spawn((MEMCHECK if job.flavor.startswith("mc") else []) + unit_cmd(b, job, a, tmp=ctx.tmp), env=job.env, wall=job.wall)
                print("exit", rc, out[-2000:], excerpt(err))
                if rc not in (0, 2):
                    bad = True
                    break
        print("REPRODUCED" if bad else "NOT REPRODUCED")
        return 1 if bad else 0
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


def setup():
    for tool in ("g++", "clang++", "valgrind"):
        if not shutil.which(tool):
            print("missing tool", tool)
            return 2
    build.build("o2", "h_bwt")
    print("ready")
    return 0


def main(argv):
    if not argv:
        print("usage: run.py check ID | replay FILE | setup")
        return 2
    if argv[0] == "setup":
        return setup()
    if argv[0] == "replay":
        return replay(argv[1])
    if argv[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        rest = argv[2:]
        while rest:
            k = rest.pop(0)
            if k == "--tier":
                tier = rest.pop(0)
            elif k == "--seed":
                seed = int(rest.pop(0))
        return check(argv[1], tier, seed)
    print("unknown command", argv[0])
    return 2
