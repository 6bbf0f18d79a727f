"""The library: what the specification says of very many cases, worked out by
TLC beforehand (tools/mklib.py) and kept as one digest of three bytes for each
case.  The cases themselves are made again by every check, from fixed seeds;
what the code does with each is put into the same canonical form and digested
by the driver (driver/digest.go).  A digest that differs decides nothing: the
case goes to TLC again, and to the full comparison."""
import hashlib, json, multiprocessing, os, random, subprocess, zlib
from . import core, cases as cs, families as fm, prefix

DIR = os.path.join(core.VERIF, "lib")
SHARD = 15000

# ------------------------------------------------------- canonical outcomes

EA = ("lp", "cp", "ap", "force", "amount", "append", "filter", "bin", "edit", "ff", "enc", "bad", "ecmd", "range", "mods")


def val(x):
    if x is None:
        return "~"
    if x is True:
        return "1"
    if x is False:
        return "0"
    if isinstance(x, str):
        return x
    if isinstance(x, int):
        return str(x)
    if isinstance(x, dict):
        return "{" + "".join("\x1f%s=%s" % (k, val(x[k])) for k in sorted(x)) + "}"
    return "[" + "".join("\x1f" + val(e) for e in x) + "]"


def pos(p):
    return "%d,%d,%d" % tuple(p)


def node(n, out):
    if n is None:
        out.append("~")
        return
    out.append("(" + n[0])
    if n[0] != "seq":
        out.append(" " + pos(n[1]))
    for s in n[2]:
        out.append("\x1f" + s)
    for c in n[3]:
        node(c, out)
    if len(n) > 4:
        e = n[4]
        out.append("@")
        for f in EA:
            v = e[f]
            out.append("\x1e" + (pos(v) if f in ("lp", "cp", "ap") and v is not None else val(v)))
        c = e["cmd"]
        out.append("\x1e" + ("~" if c is None else "%s\x1f%s\x1f%s" % (c[0], val(c[1]), val(c[2]))))
    out.append(")")


def canon(c, s):
    """The canonical text of an outcome of the specification."""
    if "err" in s:
        return "E" + s["err"]["msg"] + "\x1f" + pos(s["err"]["pos"])
    if c["op"] == "sexp":
        t = "\n".join(s["sexp"]) + ("\n" if s["sexp"] and c["mode"] == "file" else "")
        return "S" + t
    if c["op"] == "walk":
        ev = ["[\x1f%d]" % e[0] if len(e) == 1 else "[\x1f%d\x1f%s\x1f%s]" % (e[0], e[1], pos(e[2])) for e in s["walk"]]
        ins = ["[]" if len(e) == 1 else "[%s%s]" % (e[1], pos(e[2])) for e in s["walk"]]
        return "W" + "".join(ev) + "I" + "".join(ins)
    out = []
    node(s["tree"], out)
    return "T" + "".join(out)


def crc(t):
    return zlib.crc32(t.encode("utf-8")) & 0xffffff


# ------------------------------------------------------------------ cases

def tame(src):
    """Not exponential in the number of nested braces, and not huge."""
    if len(src) > 20000:
        return False
    if src.count("{") <= 6:
        return True
    d = m = 0
    for ch in src:
        if ch == "{":
            d += 1
            m = max(m, d)
        elif ch == "}":
            d = max(0, d - 1)
    return m <= 6


def make(job):
    """The cases of one family: (mode, nvim, source, pol)."""
    fam, k = job
    f = fm.FAMILIES[fam]
    rng = random.Random("lib/%s/%d" % (fam, k))
    out, seen = [], set()
    for c in f.gen(rng, k):
        m, nv, s = c[0], bool(c[1]), c[2]
        if isinstance(s, bytes):
            s = s.decode("utf-8", "surrogateescape")
        pol = c[3].get("pol", []) if len(c) > 3 else []
        if len(c) > 3 and set(c[3]) - {"pol", "file"}:
            continue
        key = (m, nv, s) if not pol else (m, nv, s, tuple(pol))
        if key in seen or not tame(s):
            continue
        seen.add(key)
        out.append((m, nv, s, pol))
    return fam, k, out


def sha(rows):
    h = hashlib.sha1()
    for m, nv, s, pol in rows:
        h.update(("%s %d %s %s\0" % (m, nv, s, pol)).encode("utf-8", "surrogateescape"))
    return h.hexdigest()[:16]


def dicts(fam, rows):
    op = fm.FAMILIES[fam].op
    return [dict(id=k + 1, mode=m, nvim=nv, src=s, pol=pol, op=op) for k, (m, nv, s, pol) in enumerate(rows)]


FILES = ["a b.vim", "dir/é.vim", "%s%d.vim", "f:1:2", "", "x\ny", "vimlparser", "/tmp/.vimrc", "c:\\d.vim", "./x.vim", "../a//b/../c.vim/", "-", " x ", "x.VIM~", "~/.vimrc", "\"q\".vim", "http://a/b?c=%%41", "a\tb", "NUL", "very/" * 60 + "long"]
CHUNKS = [[1], [2, 3], [7], [0, 1, 4], [1, 100, 2], [4096, 1], [16, 1], [5], [3, 0, 0, 1], [10, 1, 1]]


def named(c, salt):
    """A file name for each case, and for some another script before it."""
    h = zlib.crc32(b"%d/%d/%d" % (c["id"], len(c["src"]), salt))
    d = dict(file=FILES[h % len(FILES)]) if c["mode"] == "file" else {}
    k = prefix.choose(h >> 8, c)
    if k:
        d["pre"] = k
    return d


def pieces(c, salt):
    """A reader for each case that hands out the input in pieces."""
    k = c["id"] + len(c["src"]) + salt
    return dict(chunks=CHUNKS[k % len(CHUNKS)], eoftog=k % 3 == 0)


VARIED = {"": lambda c, salt: {}, "named": named, "pieces": pieces}


def code_digests(exe, cases, text=False, vary="", deaths=None, salt=0):
    """What the code does with each case, digested: numbers, or None for a hang."""
    enc = json.JSONEncoder().encode
    more = VARIED[vary]
    deaths = [0] if deaths is None else deaths
    if deaths[0] > 3:              # enough to report
        return [None] * len(cases)
    code = lambda s: core.lat(core.to_bytes(s))
    inp = "\n".join(enc(dict({k: code(v) if k == "file" else v for k, v in more(c, salt).items()}, src=code(c["src"]), mode=c["mode"], nvim=c["nvim"], ops=[c["op"]] if c["op"] else [], pol=c["pol"])) for c in cases)
    if vary == "named":
        inp = prefix.line() + "\n" + inp
    p = subprocess.run([exe, "digest"] + (["text"] if text else []), input=inp.encode(), env=core.goenv(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=core.scratch(), preexec_fn=core.capped(6))
    if p.returncode not in (0, 4):
        if len(cases) == 1:
            deaths[0] += 1
            return ["died"]
        h = (len(cases) + 1) // 2 if len(cases) < 64 else max(1, len(cases) // 16)
        out = []
        for k in range(0, len(cases), h):
            out += code_digests(exe, cases[k:k + h], text, vary, deaths, salt)
        return out
    ls = p.stdout.decode().split("\n")[:len(cases)]
    return [int(l) if l.isdigit() else (l or None) for l in ls]


def spec_hash():
    h = hashlib.sha1()
    for f in ("VimReader", "VimLex", "VimExpr", "VimCommands", "VimCmd", "VimScript", "Sexp", "Walk", "MCParse", "MCWalk"):
        t = open(os.path.join(core.SPEC, f + ".tla"), encoding="utf-8").read()
        h.update(t.encode())
    return h.hexdigest()[:16]


def index():
    f = os.path.join(DIR, "index.json")
    return json.load(open(f)) if os.path.exists(f) else {}


def read_digests(fam, k):
    b = open(os.path.join(DIR, "%s.%d.dg" % (fam, k)), "rb").read()
    return [int.from_bytes(b[i:i + 3], "big") for i in range(0, len(b), 3)]


def spec_outcomes(spec, fam, cases):
    if fm.FAMILIES[fam].op == "walk":
        return spec.parse(cases, module="MCWalk")
    return spec.parse(cases, want=("sexp",) if fm.FAMILIES[fam].op == "sexp" else ())


def job(args):
    """One shard against the code: (family, shard, number of cases, cases that differ, sample of the others)."""
    exe, fam, k, want_sha, vary, salt = args
    rows = make((fam, k))[2]
    if sha(rows) != want_sha:
        raise core.Broken("the library is stale: cases of %s/%d changed" % (fam, k))
    cases = dicts(fam, rows)
    want = read_digests(fam, k)
    got = code_digests(exe, cases, vary=vary, salt=salt)
    hung = [c for c, g in zip(cases, got) if isinstance(g, str)]
    bad = hung[:8] + [c for c, w, g in zip(cases, want, got) if w != g and (isinstance(g, int) or g is None and not hung)]
    return fam, k, len(cases), bad


def sweep(families, procs=8, vary="", repo=None, salt=0, whole=()):
    """All cases of the families: (number, [(family, case)] whose digests differ)."""
    ix = index()
    if ix.get("spec") != spec_hash():
        raise core.Broken("the library is stale: the specification changed; run tools/mklib.py")
    exe = core.build_driver(repo=repo)
    jobs = []
    for fam in families:
        n = fm.FAMILIES[fam].shards
        for k in range(n):
            if n > 2 and whole and fam not in whole and (k + salt) % 2:
                continue           # half of each big family
            e = ix["shards"].get("%s.%d" % (fam, k))
            if e is None:
                raise core.Broken("the library has no %s/%d" % (fam, k))
            jobs.append((exe, fam, k, e["sha"], vary, salt))
    jobs.sort(key=lambda j: -ix["shards"]["%s.%d" % (j[1], j[2])]["n"])
    n, bad = 0, []
    with multiprocessing.Pool(procs) as pool:
        for fam, k, m, b in pool.imap_unordered(job, jobs):
            n += m
            bad += [(fam, k, c) for c in b]
    bad.sort(key=lambda x: (x[0], x[1], x[2]["id"]))
    return n, bad
