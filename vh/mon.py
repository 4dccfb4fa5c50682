"""Run bookkeeping: seeds, budgets, event counters, violations, known findings, evidence files.

A check is a script that drives the real code, feeds what it observes to an oracle and ends through
Run.finish(): exit 0 (held on what was observed), exit 1 (VIOLATION line), exit 2 (inconclusive: a
monitor that decides the property saw nothing)."""
import hashlib, json, os, random, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
EVID = os.environ.get("VH_EVIDENCE") or os.path.join(VERIF, "evidence")


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return x.hex() if len(x) <= 4096 else x[:4096].hex() + "...(%d bytes)" % len(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if hasattr(x, "tolist"):
        return x.tolist()
    return repr(x)


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<mechanism> <what fails>' suppresses violations of that
    mechanism (and says so); 'fixed: property=<id> <commit> <what failed>' suppresses nothing."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            f = line.split(None, 3)
            if len(f) < 4 or f[1] != "property=" + pid or not f[2].startswith("key="):
                continue
            out[f[2][4:]] = f[3]
    return out


class Run:
    def __init__(self, pid, rule, level="exploration", assumptions=None):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier, self.seed = tier(), seed()
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.counters = {}
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.known = load_known(pid)
        self.known_seen = {}
        self.assumptions = list(assumptions or [])
        self.inconclusive = []
        self.extra = {}
        self.rng = random.Random("%s/%d" % (pid, self.seed))

    # -- observation -------------------------------------------------------------------------
    def ev(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial and key is not None:
            if not isinstance(key, (bytes, str)):
                key = repr(key)
            if isinstance(key, str):
                key = key.encode()
            self.keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def merge(self, rep):
        """Add what a worker process observed."""
        for k, v in rep.get("counters", {}).items():
            self.ev(k, v)
        self.evaluations += rep.get("evaluations", 0)
        for k in rep.get("keys", ()):
            self.keys.add(bytes.fromhex(k))
        for s in rep.get("samples", ()):
            self.sample(s)
        for v in rep.get("violations", ()):
            self.violation(v["key"], v["what"], v.get("replay"))
        for s in rep.get("inconclusive", ()):
            self.inconclusive.append(s)

    def report(self):
        return {"counters": self.counters, "evaluations": self.evaluations,
                "keys": [k.hex() for k in self.keys], "samples": self.samples,
                "violations": self.violations, "inconclusive": self.inconclusive}

    def violation(self, key, what, replay=None):
        """key names the mechanism; replay is whatever is needed to see it again."""
        if key in self.known:
            if key not in self.known_seen:
                self.known_seen[key] = (what, jsonable(replay))
            self.ev("known_finding_observations")
            return
        if sum(v["key"] == key for v in self.violations) < 12 and len(self.violations) < 200:
            self.violations.append({"key": key, "what": what, "replay": jsonable(replay)})
        else:
            self.ev("further_violations")

    def left(self, total):
        return total - (time.time() - self.t0)

    # -- verdict -----------------------------------------------------------------------------
    def finish(self, need=None):
        """need: {counter: minimum}: a monitor that saw less decides nothing."""
        for k, lo in (need or {}).items():
            if self.counters.get(k, 0) < lo:
                self.inconclusive.append("monitor %s saw %d events, needs %d" % (k, self.counters.get(k, 0), lo))
        os.makedirs(EVID, exist_ok=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.keys), "rule": self.rule,
               "samples": self.samples, "events": dict(sorted(self.counters.items()))}
        cov.update(self.extra)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:10]
        doc = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
               "coverage": cov, "assumptions": self.assumptions,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        tmp = os.path.join(EVID, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))
        for key, what in self.known.items():
            if key in self.known_seen:
                print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, what, key))
        print("%s %s seed=%d: %d evaluations, %d distinct, %.1fs; events: %s" % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.keys), time.time() - self.t0,
            ", ".join("%s=%d" % kv for kv in sorted(self.counters.items()))))
        if self.violations:
            rp = os.path.join(EVID, "replay-%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "violations": self.violations}, f, indent=1)
            for v in self.violations[:10]:
                print("  violated [%s]: %s" % (v["key"], v["what"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.stdout.flush()
            sys.exit(1)
        if self.inconclusive:
            for s in self.inconclusive[:10]:
                print("  inconclusive: " + str(s)[:400])
            sys.stdout.flush()
            sys.exit(2)
        sys.stdout.flush()
        sys.exit(0)
