"""mutate.py [-n N] [-s SEED] [-j SLOTS] [-l A-B] FILE CHECK...: N random one-token changes of FILE (relative to the repository),
each in a scratch copy; prints the ones that none of the checks reports. A survivor is either a change of nothing that the
properties speak about, or a hole in a check."""
import argparse, os, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
OPS = [(r"(?<![<>=!\-])<(?![<=])", ["<=", ">="]), (r"(?<![<>=!\-])>(?![>=])", [">=", "<="]), (r"<=", ["<", ">"]), (r">=", [">", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<![+eE(])\+(?![+=])", ["-"]), (r"(?<![-eE(,=<>])-(?![-=>])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\+\+", ["--"]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<!&)&(?![&=])", ["|"]), (r"(?<!\|)\|(?![|=])", ["&", "^"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<!\*)\*(?!\*)", ["+"]), (r"//", ["*"]), (r"%", ["//"]),
       (r"\blt\b", ["gt", "slt"]), (r"\bgt\b", ["lt"]), (r"\badd\b", ["sub"]), (r"\bsub\b", ["add"]), (r"\bshl\b", ["shr"]), (r"\bshr\b", ["shl"]), (r"\bmload\b", [""]),
       (r"\biszero\b", [""]), (r"\baddmod\b", ["mulmod"]), (r"\bmulmod\b", ["addmod"]), (r"\band\b", ["or"]), (r"\bor\b", ["and"]), (r"\bnot\b", [""]),
       (r"\bTrue\b", ["False"]), (r"\bFalse\b", ["True"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\b", ["max"]), (r"\brange\(", ["range(1, "]), (r"\bnot in\b", ["in"]),
       (r"\bbreak\b", ["continue"]), (r"\bmemory\b", ["memory"])]


def mutants(text, lo, hi, lang):
    lines = text.split("\n")
    inblock = False
    for i, l in enumerate(lines):
        s = l.strip()
        if lang != "py":
            if inblock or s.startswith("/*"):
                inblock = "*/" not in s
                continue
        elif s.count('"""') == 1:
            inblock = not inblock
            continue
        elif inblock or s.startswith('"""'):
            continue
        if not lo <= i + 1 <= hi or not s or s.startswith(("#", "//", "*", "import", "from", "pragma", "/*", "///", "print", "require(", "assert")) or len(s) > 250:
            continue
        code = re.split(r"//(?!=)|/\*", l)[0] if lang != "py" else l.split("  #")[0].split(" # ")[0]
        for pat, subs in OPS:
            if lang == "py" and pat in (r"&&", r"\|\|", r"\+\+") or lang != "py" and pat in (r"//",):
                continue
            if lang == "c" and pat in (r"\band\b", r"\bor\b", r"\badd\b", r"\bsub\b", r"\bnot\b"):
                continue
            for m in re.finditer(pat, code):
                for r in subs:
                    if r != m.group():
                        yield i, l[:m.start()] + r + l[m.end():]
        for m in re.finditer(r"(?<![\w.\"'\\])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
            v = int(m.group(), 0)
            for r in {v + 1, max(v - 1, 0), v ^ 4, v * 2} - {v}:
                yield i, l[:m.start()] + (hex(r) if "0x" in m.group() else str(r)) + l[m.end():]
        if lang != "py" and s.endswith(";") and "=" in s and not re.match(r"(const |static |let |uint|int|size_t|fpr |bytes|bool|unsigned|double|return|for|var )", s) and s.count("(") == s.count(")"):
            yield i, ""
        if lang == "py" and re.match(r"[\w.\[\]]+ ?(=|\+=|-=|\^=|\.)", s):
            yield i, l[:len(l) - len(l.lstrip())] + "pass"
        m = re.search(r"\bif ?\((.*)\)( ?\{?| return.*| revert.*)$", code)
        if m and lang != "py" and m.group(1).count("(") == m.group(1).count(")"):
            for r in ("false", "true") if lang != "c" else ("0", "1"):
                yield i, l[:m.start(1)] + r + l[m.end(1):]
        m = re.match(r"\s*(?:el)?if (.*):$", code)
        if m and lang == "py":
            for r in ("False", "True"):
                yield i, l[:m.start(1)] + r + l[m.end(1):]


def subtle(text, lo, hi, lang):
    """Changes that show on few inputs: narrowed values, a bound one lower, swapped neighbours, rare conditions."""
    lines = text.split("\n")
    seen = {(i, n) for i, n in mutants(text, lo, hi, lang)}
    ok = {i for i, _ in seen} | {i for i, l in enumerate(lines) if re.search(r"\w\(.*\)", l) and not l.strip().startswith(("#", "//", "*", "/*", "print", "def ", "import"))}
    for i in sorted(ok):
        if not lo <= i + 1 <= hi:
            continue
        l = lines[i]
        m = re.match(r"(\s*(?:[\w.\[\]>*\-]+ )*[\w.\[\]>\-]+ (?:\+|\^|\|)?= )([^;{}\"'\[]+?)(;?)$", l)
        e = m and m.group(2)
        if m and e.count("(") == e.count(")") and re.search(r"[+\-*<>&|]|\w\(", e) and not re.search(r"malloc|new |NULL", e):
            if lang == "c":
                for t in ("uint8_t", "uint16_t", "int16_t", "uint32_t", "int32_t"):
                    yield i, "%s(%s)(%s);" % (m.group(1), t, e)
            elif lang == "go":
                pass
            elif re.search(r"[+*<]", e):
                for k in ("0xff", "0xffff", "0xffffffff", "0x7fffffff"):
                    yield i, "%s(%s) & %s%s" % (m.group(1), e, k, m.group(3))
        for m in re.finditer(r"(< ?)(n|hn|len|size|mlen|smlen|sig_len|plen|N|numBytes|count|length)\b(?= ?[;)&])", l):
            yield i, l[:m.start()] + m.group(1) + m.group(2) + " - 1" + l[m.end():]
        for m in re.finditer(r"\brange\((\w+|self\.\w+|\w+ \* \w+|\w+ // \w+)\)", l):
            yield i, l[:m.start()] + "range(%s - 1)" % m.group(1) + l[m.end():]
        for m in re.finditer(r"([(,] ?)([\w.\[\]]+), ?([\w.\[\]]+)(?=[,)])", l):
            if m.group(2) != m.group(3) and not re.match(r"[\d.]+$", m.group(2) + m.group(3)):
                yield i, l[:m.start()] + m.group(1) + m.group(3) + ", " + m.group(2) + l[m.end():]
        m = re.search(r"\bif ?\((.*)\)( ?\{?| return.*| revert.*)$", l)
        if m and lang in ("c", "go", "sol") and m.group(1).count("(") == m.group(1).count(")"):
            for v in ("u", "n", "len", "mlen", "i", "j", "w"):
                if re.search(r"\b%s\b" % v, m.group(1)):
                    yield i, l[:m.start(1)] + "(%s) && (%s & 255) != 77" % (m.group(1), v) + l[m.end(1):]
        if lang == "c" and re.match(r"\s+(uint\w+|int\w*|size_t|unsigned|fpr|unsigned char|uint8_t) \w+(\[[^\]]*\])?(, \w+(\[[^\]]*\])?)*;$", l):
            yield i, re.sub(r"^(\s+)", r"\1static ", l)
        if i + 1 < len(lines) and lines[i].strip() and re.match(r"\s*", l).group() == re.match(r"\s*", lines[i + 1]).group() and i + 1 in ok and l.strip()[-1:] in ";)":
            if lang != "py" and not (l.rstrip().endswith(";") and lines[i + 1].rstrip().endswith(";")):
                continue
            yield i, lines[i + 1] + "\n" + l + "\0"


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-n", type=int, default=40)
    a.add_argument("-s", type=int, default=1)
    a.add_argument("-j", type=int, default=3)
    a.add_argument("-l", default="1-100000")
    a.add_argument("-k", default="token", help="token or subtle")
    a.add_argument("file")
    a.add_argument("checks", nargs="+")
    o = a.parse_args()
    lang = {"py": "py", "sol": "sol", "go": "go"}.get(o.file.split(".")[-1], "c")
    text = open("/repo/" + o.file).read()
    lo, hi = map(int, o.l.split("-"))
    ms = list(dict.fromkeys((subtle if o.k == "subtle" else mutants)(text, lo, hi, lang)))
    random.Random(o.s).shuffle(ms)
    ms = ms[:o.n]
    lock = threading.Lock()
    tot = {"caught": 0, "survived": 0, "noanswer": 0}
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")

    def slot(k):
        wt = "%s/%d" % (tmp, k)
        subprocess.run(["cp", "-a", "/repo", wt])
        while True:
            with lock:
                if not ms:
                    return
                i, new = ms.pop()
            lines = text.split("\n")
            old, lines[i] = lines[i], new.rstrip("\0")
            if new.endswith("\0"):
                del lines[i + 1]
            open(wt + "/" + o.file, "w").write("\n".join(lines))
            verdict, note = "survived", ""
            for c in o.checks:
                r = subprocess.run([PY, "checks/%s.py" % c], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env=dict(os.environ, VH_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick", VH_FAST="1", VH_EVIDENCE=wt))
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    verdict = "caught"
                    break
                if r.returncode not in (0, 1):
                    verdict, note = "noanswer", "%s rc %d: %s" % (c, r.returncode, r.stdout[-400:].replace("\n", " | "))
                    if "build" in r.stdout or "SyntaxError" in r.stdout or "sol" == lang and ("Unsupported" in r.stdout or "translat" in r.stdout):
                        break
            with lock:
                tot[verdict] += 1
                if verdict != "caught":
                    print("%s %s:%d\n    - %s\n    + %s %s" % (verdict.upper(), o.file, i + 1, old.strip()[:160], new.strip()[:160], note and "\n      " + note), flush=True)

    ts = [threading.Thread(target=slot, args=(k,)) for k in range(o.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(tmp)
    print(o.file, tot, flush=True)


if __name__ == "__main__":
    main()
