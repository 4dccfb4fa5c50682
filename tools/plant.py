"""plant.py SPEC.py [ID...]: write /verif/seeded/<id> from the entries of SPEC.py and confirm each one in scratch copies.
SPEC.py defines BUGS: list of dict(id, property, needs, what, edits=[(path, old, new)], files={name: text}); files has demo.sh."""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(b, extra_checks=()):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    for n, t in b["files"].items():
        p = os.path.join(d, n)
        open(p, "w").write(t)
        os.chmod(p, 0o755 if n.endswith(".sh") else 0o644)
    for n, src in b.get("dirs", {}).items():
        shutil.copytree(src, os.path.join(d, n), dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        wt = tmp + "/repo"
        sh(["cp", "-a", "/repo", wt])
        for path, old, new in b["edits"]:
            f = os.path.join(wt, path)
            s = open(f, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return b["id"], "edit matches %d times: %r" % (s.count(old), old[:60])
            open(f, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        vp = tmp + "/vp"
        os.makedirs(vp + "/work")
        for n in ("build.sh", "env.sh", "test.sh", "results.py"):
            s = open("/opt/vp/" + n).read()
            s = s.replace("GOCACHE=/opt/vp/gocache", "GOCACHE=@@").replace("/opt/vp", vp).replace("/repo", wt).replace("@@", "/opt/vp/gocache")
            open(vp + "/" + n, "w").write(s)
        r = sh(["bash", vp + "/build.sh"])
        if r.returncode:
            return b["id"], "BUILD FAILS\n" + r.stdout[-1500:]
        r = sh(["bash", vp + "/test.sh", tmp + "/out.json"])
        o = json.load(open(tmp + "/out.json"))
        passed = set(o.get("passed") or [k for k, v in o.get("results", o).items() if v in ("pass", "passed", True)])
        miss = [t for t in BASE if t not in passed]
        if miss:
            return b["id"], "TESTS FAIL %s" % miss[:5]
        demo = tmp + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        clean = sh(["bash", demo + "/demo.sh"], cwd="/repo", timeout=300)
        bad = sh(["bash", demo + "/demo.sh"], cwd=wt, timeout=300)
        msg = "demo clean=%d patched=%d" % (clean.returncode, bad.returncode)
        if clean.returncode or not bad.returncode:
            return b["id"], "DEMO WRONG " + msg + "\n" + clean.stdout[-800:] + "\n---\n" + bad.stdout[-800:]
        res = []
        for c in [b["property"]] + list(b.get("also", [])):
            try:
                r = sh([sys.executable if False else "/opt/venv/bin/python", "checks/%s.py" % c], cwd=V, timeout=900,
                       env=dict(os.environ, VH_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick", VH_EVIDENCE=tmp))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append("%s:%s" % (c, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])))
            except subprocess.TimeoutExpired:
                res.append("%s:TIMEOUT" % c)
        return b["id"], msg + " " + " ".join(res)
    finally:
        subprocess.run(["rm", "-rf", tmp])


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for i, msg in ex.map(one, bugs):
            print(i, msg, flush=True)
