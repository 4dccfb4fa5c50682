"""Worker processes for the checks. The code under test runs only in workers, so that a crash, a sanitizer
report or a loop is an observation (with the case at hand as replay) and not the end of the check."""
import json, mmap, os, random, signal, struct, subprocess, sys, tempfile, time, traceback
from . import mon, build

EXIT_SAN = 99
_mm = None
CPU_LIMIT = 120.0
REPEAT = {"C01": 2, "C02": 3, "C03": 5, "C04": 6, "C05": 3, "C06": 2, "C07": 3, "C08": 3, "C10": 5, "C11": 3, "C12": 4, "C13": 6, "C14": 6,
          "C15": 3, "C17": 3, "J01": 4, "P05": 3, "P06": 2, "P08": 3, "P11": 2, "S03": 3, "S04": 2, "S05": 6, "S06": 3}
FAST = os.environ.get("VH_FAST")  # for campaigns: end at the first violation


class Worker(mon.Run):
    """What a job sees: a Run that only collects."""

    def __init__(self, pid, spec):
        mon.Run.__init__(self, pid, "")
        self.known = {}
        self.out = None
        # the same cases in every run of one seed: the place of the scratch directory and of the tree does not matter
        t = json.dumps(spec, sort_keys=True).replace(build.scratch(), "").replace(mon.REPO, "")
        self.rng = random.Random("%s/%d/%s" % (pid, self.seed, t))

    def now(self, obj, cpu=CPU_LIMIT):
        """Announce the call about to be made into the code under test."""
        if _mm is not None:
            b = json.dumps(mon.jsonable(obj)).encode()[:_mm.size() - 8]
            _mm[0:8] = len(b).to_bytes(8, "little")
            _mm[8:8 + len(b)] = b
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu)

    def violation(self, key, what, replay=None):
        mon.Run.violation(self, key, what, replay)
        if FAST and self.violations and self.out:
            with open(self.out, "w") as o:
                json.dump(self.report(), o)
            os._exit(0)

    def last(self):
        return _mm[8:8 + int.from_bytes(_mm[0:8], "little")].decode(errors="replace")[:3000]


def _report(w):
    with open(w.out + ".tmp", "w") as o:
        json.dump(w.report(), o)
    os.rename(w.out + ".tmp", w.out)


def blamed(e):
    """Whether the code under test raised e, itself or through a library it called."""
    own = [os.path.join(mon.VERIF, x) for x in ("checks", "vh", "tools")]
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        f = os.path.abspath(f.filename)
        if f.startswith(os.path.join(mon.REPO, "")):
            return True
        if any(f.startswith(x) for x in own):
            return False
    return False


def unreadable(e):
    """Whether e is what reading results of the wrong shape (no result, too short, not a number) gives, as opposed to
    trouble of the harness itself or an interface that is not there."""
    if any(os.path.join(mon.VERIF, "vh", "sol") in os.path.abspath(f.filename) for f in traceback.extract_tb(e.__traceback__)):
        return False
    if isinstance(e, TypeError):
        return "argument" not in str(e)
    if isinstance(e, AttributeError):
        return "'NoneType'" in str(e)
    return isinstance(e, (ValueError, LookupError, struct.error, ArithmeticError, AssertionError)) and not isinstance(e, UnicodeEncodeError)


def _worker(pid, jobs):
    global _mm
    spec = json.load(sys.stdin)
    f = open(spec["now"], "r+b")
    _mm = mmap.mmap(f.fileno(), 1 << 18)
    w = Worker(pid, spec["spec"])
    spec["spec"].pop("rep", None)
    w.out = spec["out"]

    def enough(*_):
        """The tier's time is used up: what was seen so far counts."""
        w.ev("tasks_cut_by_time")
        _report(w)
        os._exit(0)
    signal.signal(signal.SIGUSR1, enough)
    try:
        jobs[spec["job"]](w, **spec["spec"])
    except Exception as e:
        if blamed(e):
            w.violation("exception", "the code under test raised %r in job %s %s: %s; case: %s" % (
                e, spec["job"], json.dumps(spec["spec"])[:200], traceback.format_exc()[-700:], w.last()), {"job": spec["job"], "spec": spec["spec"], "case": w.last()})
        elif unreadable(e):
            w.violation("unreadable", "what the code under test returned in job %s %s cannot be read as what it documents to return: %r: %s; case: %s" % (
                spec["job"], json.dumps(spec["spec"])[:200], e, traceback.format_exc()[-700:], w.last()), {"job": spec["job"], "spec": spec["spec"], "case": w.last()})
        w.inconclusive.append("job %s %s: %s" % (spec["job"], json.dumps(spec["spec"])[:200], traceback.format_exc()[-1500:]))
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    signal.signal(signal.SIGUSR1, signal.SIG_IGN)
    _report(w)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def san_env(san, env=None):
    env = dict(os.environ if env is None else env)
    env["ASAN_OPTIONS"] = "exitcode=%d:detect_leaks=0:abort_on_error=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0" % EXIT_SAN
    env["UBSAN_OPTIONS"] = "exitcode=%d:halt_on_error=1:print_stacktrace=1" % EXIT_SAN
    env["TSAN_OPTIONS"] = "exitcode=%d:halt_on_error=0" % EXIT_SAN
    env["MSAN_OPTIONS"] = "exitcode=%d" % EXIT_SAN
    if san == "asan":
        env["LD_PRELOAD"] = build.asan_preload()
        env["PYTHONMALLOC"] = "malloc"
    return env


def summarize(err):
    """The line of a sanitizer report that names the mechanism, and a bit of context."""
    lines = err.splitlines()
    for i, l in enumerate(lines):
        if "runtime error:" in l or "ERROR: AddressSanitizer" in l or "WARNING: MemorySanitizer" in l \
                or "WARNING: ThreadSanitizer" in l:
            return "\n".join(lines[i:i + 12])
    return "\n".join(lines[-12:])


def run(R, tasks, script, par=8, timeout=None):
    """tasks: list of (job, spec, san). Runs each in a process of its own; merges what they saw into R."""
    d = build.scratch()
    queue = list(enumerate(tasks))
    live = {}
    hangs = 0
    t_end = time.time() + (timeout or (700 if R.quick else 5000))
    t_soft = None if R.quick else time.time() + float(os.environ.get("VH_SOFT", 3000))
    t_stop = None                       # once something is wrong, the quick tier does not wait for everything else
    while queue or live:
        if t_soft and time.time() > t_soft:
            R.ev("tasks_left_out_by_time", len(queue))
            queue = []
            t_soft = None
            for p in live:
                p.send_signal(signal.SIGUSR1)
        if R.quick and R.violations:
            t_stop = min(t_stop or t_end, time.time() + (30 if hangs else 150))
            if time.time() > t_stop:
                queue = []
                for p in list(live):
                    p.kill()
                    p.wait()
                    live.pop(p)
                break
        if R.violations and (FAST or hangs > 2 or time.time() > t_end - 400):
            queue = []
            for p in list(live) if FAST else ():
                p.kill()
                p.wait()
                live.pop(p)
        while queue and len(live) < par:
            i, (job, spec, san) = queue.pop(0)
            base = os.path.join(d, "w%d-%d" % (os.getpid(), i))
            with open(base + ".now", "wb") as f:
                f.truncate(1 << 18)
            env = san_env(san)
            env["VH_SCRATCH"] = d
            env["OPENBLAS_NUM_THREADS"] = "1"
            env["OMP_NUM_THREADS"] = "1"
            p = subprocess.Popen([sys.executable, script, "--worker"], stdin=subprocess.PIPE,
                                 stdout=open(base + ".o", "wb"), stderr=open(base + ".e", "wb"), env=env)
            p.stdin.write(json.dumps({"job": job, "spec": spec, "now": base + ".now", "out": base + ".out"}).encode())
            p.stdin.close()
            live[p] = (base, job, spec, san)
        time.sleep(0.02)
        for p in list(live):
            if p.poll() is None:
                if time.time() > t_end:
                    p.kill()
                    p.wait()
                    R.inconclusive.append("job %s did not end in time" % live[p][1])
                else:
                    continue
            base, job, spec, san = live.pop(p)
            err = open(base + ".e", errors="replace").read()
            with open(base + ".now", "rb") as f:
                n = int.from_bytes(f.read(8), "little")
                now = f.read(n).decode(errors="replace")
            if p.returncode == 0 and os.path.exists(base + ".out"):
                R.merge(json.load(open(base + ".out")))
            elif p.returncode == EXIT_SAN:
                s = summarize(err)
                key = "sanitizer"
                R.violation(key, "%s in job %s %s; case: %s" % (s, job, json.dumps(spec)[:200], now[:800]),
                            {"job": job, "spec": spec, "case": now})
            elif p.returncode == -signal.SIGVTALRM:
                hangs += 1
                R.violation("hang", "no return within the CPU limit in job %s; case: %s" % (job, now[:800]),
                            {"job": job, "spec": spec, "case": now})
            elif p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGILL):
                R.violation("crash", "process died with signal %d in job %s; case: %s; stderr: %s" % (
                    -p.returncode, job, now[:800], err[-800:]), {"job": job, "spec": spec, "case": now})
            elif p.returncode == -signal.SIGUSR1:
                R.ev("tasks_left_out_by_time")
            elif time.time() <= t_end:
                R.inconclusive.append("job %s ended with %s: %s" % (job, p.returncode, err[-800:]))
            for ext in (".now", ".o", ".e", ".out"):
                try:
                    os.unlink(base + ext)
                except OSError:
                    pass


def check(pid, rule, jobs, plan, need=None, assumptions=None, script=None, after=None, par=8):
    """Entry point of a check script. jobs: {name: function(worker, **spec)}; plan(R) -> list of tasks. In the quick tier the
    tasks of cheap checks are run REPEAT times, with other random choices (the thorough tier of each plan is larger already)."""
    script = script or os.path.abspath(sys.argv[0])
    if len(sys.argv) > 1 and sys.argv[1] == "--worker":
        _worker(pid, jobs)
        return
    R = mon.Run(pid, rule, assumptions=assumptions)
    try:
        tasks = plan(R)
    except build.BuildError as e:
        R.inconclusive.append("build: " + str(e))
        tasks = []
    tasks = [t if len(t) == 3 else (t[0], t[1], "") for t in tasks]
    if R.quick and not FAST:
        tasks += [(j, dict(s, rep=k), x) for k in range(1, REPEAT.get(pid, 1)) for j, s, x in tasks if "part" in s]
    if not R.quick:
        random.Random(R.seed).shuffle(tasks)
    run(R, tasks, script, par=par)
    if after:
        after(R)
    n = need(R) if callable(need) else need
    R.finish(n)


def share(total, parts):
    return [total // parts + (1 if i < total % parts else 0) for i in range(parts)]
