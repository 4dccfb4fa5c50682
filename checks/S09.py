"""S09: the deployment script and the Python-signer contract end well only when what they set up works."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import mon, pool, pyref, solx
from vh.sol import rt

U32 = ("arr", solx.U256, 32)
VERIFY = "verify(bytes,bytes,uint256[],uint256[])"
SEEDS = [17, 18, 5, 36, 21, 24, 11, 31, 27, 33, 32, 22]
SCRIPT = "Script_Deploy_epervier"


class Watched(rt.World):
    """A world that records who created what, and can put another contract where one is created."""
    made, swap = (), None

    def deploy(self, name, args=(), creator=0xD0, salt=None):
        n = name if isinstance(name, str) else name.name
        a = rt.World.deploy(self, self.swap.get(n, name) if self.swap else name, args, creator, salt)
        self.made += ((n, creator, salt, a),)
        return a

    def cheat(self, data):
        for c in ("startBroadcast", "stopBroadcast"):
            if data[:4] == rt.selector(c + "()"):
                self.made += ((c,),)
        return rt.World.cheat(self, data)


def script(w, n):
    """run() passes with the contract as it is, and reverts when the contract it deployed does not recover the key of its vector."""
    solx.file("script/DeployEPERVIER.s.sol")
    stub = os.path.join(mon.VERIF, "stubs", "sol", "probe", "Recover.sol")
    solx.unit().load(stub)
    for kind, swap in [("good", None)] + [("bad", x) for x in ("RecoverOther", "RecoverZero", "RecoverNear", "RecoverReverts")]:
        x = Watched(solx.unit())
        x.swap = {"ZKNOX_epervier": swap} if swap else None
        s = x.deploy(SCRIPT)
        x.made = ()
        case = {"script": SCRIPT, "deployed": swap or "ZKNOX_epervier"}
        w.now(case)
        ok, ret = x.call(0xCA11, s, rt.selector("run()"))
        w.ev("runs_" + kind)
        w.case((kind, swap))
        if not ok and kind == "good":
            w.violation("refuses", "the script reverts: %s" % (solx.why(ret) or getattr(x, "why", "")), case)
        if ok and kind == "bad":
            w.violation("accepts", "the script ends well though the deployed contract gives another key", case)
        if kind == "good" and ok:
            made = [m for m in x.made if m[0] == "ZKNOX_epervier"]
            order = [m[0] for m in x.made]
            if len(made) != 1 or made[0][2] is None or made[0][1] != s:
                w.violation("deploys", "the script creates %s" % str(x.made), case)
            elif not x.code(made[0][3]):
                w.violation("deploys", "there is no code at the new address", case)
            elif order[0] != "startBroadcast" or order[-1] != "stopBroadcast":
                w.violation("broadcast", "the creation is not broadcast: %s" % order, case)
        w.sample(case)


def signer(w, mode, path):
    """PythonSigner.sign hands its arguments to sig_sol.py, and the contract of that hash accepts what it returns."""
    r = w.rng
    x = rt.World(solx.unit())
    calls, root = [], "/a/place for%20it" if path else "/nowhere"

    def ffi(cmds):
        calls.append(cmds)
        if cmds[:2] != [root + "/myenv/bin/python", root + "/sig_sol.py"]:
            return b""
        env = dict(os.environ, PYTHONPATH=os.path.join(mon.VERIF, "stubs"), PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, os.path.join(pyref.ROOT, "sig_sol.py")] + cmds[2:], env=env, capture_output=True, text=True, timeout=400)
        return bytes.fromhex(p.stdout.strip()) if p.returncode == 0 else b""
    x.ffi = ffi
    s = x.deploy("PythonSigner")
    msg = r.randbytes(r.choice([0, 1, 31, 32, 33, 100]))
    seed = r.choice(SEEDS).to_bytes(32, "big").hex()
    text = "0x" + msg.hex()
    case = {"mode": mode, "message": msg, "seed": seed, "path": root}
    w.now(case, 400)
    sig = "sign(string,string,string,string)"
    ok, ret = x.call(0xCA11, s, rt.selector(sig) + rt.enc([solx.STRING] * 4, [t.encode() for t in (root, text, mode, seed)]))
    w.ev("signer_calls")
    w.case((mode, msg, seed))
    if calls != [[root + "/myenv/bin/python", root + "/sig_sol.py", text, mode, seed]]:
        w.violation("arguments", "the commands run are %s" % calls, case)
        return
    if not ok:
        w.violation("refused", "sign reverts: %s" % (solx.why(ret) or getattr(x, "why", "")), case)
        return
    pk, salt, s2 = rt.dec([U32, solx.BYTES, U32], ret)
    ch = solx.Chain()
    for name, m in (("ZKNOX_falcon", "NIST"), ("ZKNOX_ethfalcon", "ETH")):
        ok, v = ch.call(ch.deploy(name), VERIFY, msg, salt, list(s2), list(pk), rets="bool")
        w.ev("verified_" + ("same" if m == mode else "other"))
        if not ok or bool(v) != (m == mode):
            w.violation("signature", "%s says %s for a signature made in mode %s" % (name, v if ok else solx.why(v), mode), case)
    w.sample(case)


def plan(R):
    k = 1 if R.quick else 8
    t = [("script", dict(n=1))]
    t += [("signer", dict(mode=m, path=p)) for m in ("NIST", "ETH") for p in (0, 1) for _ in range(k)]
    return [(j, dict(s, salt=i)) for i, (j, s) in enumerate(t)]


if __name__ == "__main__":
    pool.check("S09", "a run of the script by what it deploys, a signature by (mode, message, seed)",
               {"script": lambda w, salt, **k: script(w, **k), "signer": lambda w, salt, **k: signer(w, **k)}, plan,
               {"runs_good": 1, "runs_bad": 4, "signer_calls": 4, "verified_same": 4, "verified_other": 4},
               ["forge-std is a stand-in: startBroadcast does nothing, ffi runs sig_sol.py with this interpreter and returns its output read as hex"])
