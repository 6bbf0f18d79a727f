"""Literals of the code under test that were not in it when this was written.
They decide nothing; cases are made of them, since what a change treats in a
special way is often named in it."""
import collections, json, os, random, re, subprocess
from . import core, families as fm

STORE = os.path.join(core.VERIF, "vp", "literals.json")
TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|`[^`]*`|'(?:\\.[^']*|[^'\\\n])'|\b(?:0[xX][0-9a-fA-F]+|[0-9]+)\b''', re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "v": "\v", "f": "\f", "a": "\a", "b": "\b", "\\": "\\", '"': '"', "'": "'"}


def unescape(s):
    def one(m):
        t = m.group(1)
        if t[0] == "x":
            b = int(t[1:], 16)
            return chr(b) if b < 128 else chr(0xDC00 + b)
        if t[0] in "uU":
            return chr(int(t[1:], 16))
        if t[0] in "01234567" and len(t) == 3:
            b = int(t, 8)
            return chr(b) if b < 128 else chr(0xDC00 + b)
        return ESC.get(t[0], t[0])
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|[0-7]{3}|.)", one, s, flags=re.S)


def literals(repo=None):
    repo = repo or core.REPO
    out = collections.Counter()
    fs = sorted(os.path.join(d, f) for d, ds, xs in os.walk(repo) for f in xs if f.endswith(".go") and not f.endswith("_test.go") and "/.git" not in d)
    for f in fs:
        t = open(f, encoding="utf-8", errors="surrogateescape").read()
        t = re.sub(r"\nimport \(.*?\n\)", "", t, flags=re.S)
        for m in TOKEN.finditer(t):
            s = m.group(0)
            if s.startswith(("//", "/*")):
                continue
            if s[0] == "`":
                out["s" + s[1:-1]] += 1
            elif s[0] in "\"'":
                out["s" + unescape(s[1:-1])] += 1
            else:
                out["n%d" % int(s, 0 if s[:2] in ("0x", "0X") else 10)] += 1
    return out


def news():
    """New strings and numbers."""
    old = json.load(open(STORE, encoding="utf-8"))
    new = {k: n - old.get(k, 0) for k, n in literals().items() if n > old.get(k, 0)}
    ws = sorted({k[1:] for k in new if k[0] == "s" and 0 < len(k) - 1 <= 40}, key=lambda w: ("s" + w in old, w))
    ns = sorted({int(k[1:]) for k in new if k[0] == "n"}, key=lambda n: ("n%d" % n in old, n))
    return ws[:12], ns[:8]


def cases(rng, most=3000):
    """Cases (mode, nvim, source) made of the new literals."""
    ws, ns = news()
    out = []
    pieces = list(ws)
    for w in ws:
        pieces += [x for x in re.split(r"[^\w#]+|\\v|%s|%d|\$", w) if x and x != w]
        pieces += list(w) if len(w) <= 4 else []
    pieces = list(dict.fromkeys(pieces))[:30]
    for n in ns:
        if n < 100000000:
            pieces += ["a" * k for k in {n - 1, n, n + 1} if 0 < k <= 300] + [str(n)]
            if n < 128:
                pieces.append(chr(n))
    for w in pieces:
        for t in fm.WORDAT + fm.BLANKAT + ["let x = '%s'", "echo '%s%s'", "\"%s", "\" a%s b", "echo \"a%s\"", "x%s", "echo 1\n%s", "%s\necho 1", "append\n%s\na%s\n.", "let x =<< E\n%s\nE", "echo 'a'%s", "echo a%s", "echo %sa", "echo a %s b", "echo 1%s|echo 2"]:
            out.append(("file", rng.random() < 0.2, t.replace("%s", w)))
            out.append(("file", rng.random() < 0.2, "".join(rng.choice(pieces) if x == "\0" else x for x in t.replace("%s", "\0"))))
            if t.startswith("echo ") and "\n" not in t and "|" not in t:
                out.append(("expr", False, t[5:].replace("%s", w)))
    big = []
    for n in ns:
        for k in (n - 1, n, n + 1):
            if 1 <= k <= 700:
                big += list(fm.sizes(k))
    if len(out) > most * 2 // 3:
        out = rng.sample(out, most * 2 // 3)
    return out + (big if len(big) <= most // 3 else rng.sample(big, most // 3))
