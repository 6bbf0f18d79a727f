"""The checks: for each property, cases, what the specification says of them,
what the code does, and which differences count."""
import collections, hashlib, json, os, random, re, resource, shutil, subprocess, time, unicodedata, zlib
from . import core, cases as cs, lib, families as fm, literals, prefix, pump
from .core import Broken, log

VERIF = core.VERIF


def tame(src):
    return lib.tame(src if isinstance(src, str) else src.decode("utf-8", "surrogateescape"))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.spec = core.Spec()
        self.validated = 0
        self.samples = []
        self.bad = []                  # (what, replay record)
        self.known = []
        self.cov = collections.Counter()
        self.msgs = collections.Counter()
        self.assume = []
        self.exhaustive = []
        self.load_known()

    # ------------------------------------------------------------ findings
    def load_known(self):
        self.kf = []
        f = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(f):
            for line in open(f, encoding="utf-8"):
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e["status"] == "known" and e["property"] == self.prop:
                        self.kf.append(e)

    def is_known(self, rec):
        for e in self.kf:
            if e["src"] == rec.get("src") and e["mode"] == rec.get("mode") and bool(e.get("nvim")) == bool(rec.get("nvim")) \
                    and set(a for a in rec.get("aspects", [])) <= set(e["aspects"]):
                return e
        return None

    def violation(self, what, rec):
        e = self.is_known(rec)
        if e is not None:
            if e not in self.known:
                self.known.append(e)
            return
        self.bad.append((what, rec))

    # --------------------------------------------------------------- cases
    def prepare(self, gen, limit=None):
        out, seen = [], set()
        for c in gen:
            m, nv, s = c[:3]
            more = c[3] if len(c) > 3 else {}
            key = (m, bool(nv), s if isinstance(s, str) else s.decode("latin-1"), more.get("file", ""), str(more.get("pol", "")))
            if key in seen or not tame(s):
                continue
            seen.add(key)
            q = dict(id=len(out) + 1, mode=m, nvim=bool(nv), src=s)
            q.update(more)
            out.append(q)
        return out

    def part(self, cases, most=7000):
        """The quick checks give TLC so many of them; the library has the same
        spaces, whole."""
        if self.deep or len(cases) <= most:
            return cases
        keep = set(self.rng.sample(range(len(cases)), most))
        return [dict(c, id=k + 1) if isinstance(c, dict) else c for k, c in enumerate(c for j, c in enumerate(cases) if j in keep)]

    def record(self, c, **kw):
        r = dict(property=self.prop, mode=c.get("mode", "file"), nvim=bool(c.get("nvim")), src=core.lat(core.to_bytes(c["src"])), file=c.get("file", ""))
        for k in ("ops", "pol", "chunks", "eoftog", "fail", "wfail", "nilopt", "pre"):
            if k in c:
                r[k] = c[k]
        r.update(kw)
        return r

    def sample(self, c, s):
        t = c["src"] if isinstance(c["src"], str) else c["src"].decode("utf-8", "surrogateescape")
        t = t.encode("utf-8", "backslashreplace").decode()
        d = dict(mode=c.get("mode"), neovim=bool(c.get("nvim")), source=t[:400])
        if "err" in s:
            d["specified"] = "rejected: %s at %s" % (s["err"]["msg"].encode("latin-1", "replace").decode("utf-8", "replace"), s["err"]["pos"])
        elif "tree" in s:
            d["specified"] = core.short(s["tree"], 300)
        self.samples.append(d)

    def outcomes(self, cases, module="MCParse", want=()):
        so = self.spec.parse(cases, module=module, want=want)
        missing = [c for c in cases if c["id"] not in so]
        if missing:
            raise Broken("the specification gave no outcome for %d of %d cases, such as %r" % (len(missing), len(cases), missing[0]["src"]))
        return so

    def note(self, c, s):
        if "err" in s:
            self.cov["rejected"] += 1
            self.msgs[re.sub(r"[:(].*", "", s["err"]["msg"])] += 1
        else:
            self.cov["accepted"] += 1

    def compare_all(self, cases, keep, module="MCParse", want=(), judge=None):
        """Every case on both sides; keep(aspect) tells which differences count."""
        so = self.outcomes(cases, module, want)
        co = core.run_driver(cases)
        pick = set(self.rng.sample(range(len(cases)), min(4, len(cases))))
        for k, c in enumerate(cases):
            s, g = so[c["id"]], co.get(c["id"])
            self.validated += 1
            self.note(c, s)
            if k in pick:
                self.sample(c, s)
            ds = [d for d in core.compare(s, g, c.get("file", "") if c.get("mode", "file") == "file" else "") if keep(d.aspect)]
            if judge and g is not None and "hang" not in g:
                ds += judge(c, s, g)
            if ds:
                self.violation("; ".join(map(str, ds[:3])), self.record(c, aspects=sorted({d.aspect for d in ds}), differences=[str(d) for d in ds[:5]]))
        return so, co

    def families(self, families, salt):
        """The quick checks take their own cases, all of the general families,
        and a fifth of the families of the other properties."""
        if self.deep:
            return families
        own = self.prop.lower()
        return [f for k, f in enumerate(families) if not re.fullmatch("c[0-9][0-9]", f) or f == own or (k + salt) % 5 == 0]

    def library(self, families, keep, judge=None, most=1500, fresh=80, vary=""):
        """The library's cases in the code.  Those whose digest is another one,
        and some of the others, go to TLC now; what it says decides."""
        salt = zlib.crc32(("%s/%d" % (self.prop, self.seed)).encode())
        families = self.families(families, salt)
        n, bad = lib.sweep(families, vary=vary, salt=salt, whole=() if self.deep else (self.prop.lower(), "tiny", "sexp", "walk"))
        self.cov["library_cases_replayed"] += n
        self.cov["library_digests_that_differ"] += len(bad)
        self.validated += n
        if len(bad) > most:
            few = {}
            for f, k, c in bad:
                few.setdefault(f, []).append((f, k, c))
            part = max(20, most // len(few))
            bad = [x for xs in few.values() for x in (xs if len(xs) <= part else xs[:8] + self.rng.sample(xs[8:], part))]
        shards = [(f, k) for f in families for k in range(fm.FAMILIES[f].shards)]
        f, k = self.rng.choice(shards)
        rows, want = lib.make((f, k))[2], lib.read_digests(f, k)
        if len(rows) != len(want):
            raise Broken("the library is stale: %s/%d has %d digests for %d cases" % (f, k, len(want), len(rows)))
        short = [j for j, r in enumerate(rows) if len(r[2]) < 700]
        some = self.rng.sample(short, min(fresh, len(short))) 
        dicts = lib.dicts(f, rows)
        cases, origin = [], []
        for g, c, w in [(g, c, None) for g, _, c in bad] + [(f, dicts[j], want[j]) for j in some]:
            c = dict(c, id=len(cases) + 1, **lib.VARIED[vary](c, salt))
            if c["op"]:
                c["ops"] = [c["op"]]
            cases.append(c)
            origin.append((g, w))
            t = prefix.text(c.get("pre", 0))
            if 0 < len(t) < 1000:      # with what stands before it, to the specification as well
                cases.append(dict(c, id=len(cases) + 1, src=t + c["src"] + prefix.close(c["pre"]), pre=0))
                origin.append((g, None))
        long = [c for c in cases if vary and not c.get("pre") and prefix.million(c)]
        for c in self.rng.sample(long, min(10, len(long))):
            cases.append(dict(c, id=len(cases) + 1, pre=prefix.million(c)))
            origin.append((origin[c["id"] - 1][0], None))
        for op in sorted({c["op"] for c in cases}):
            part = [c for c in cases if c["op"] == op]
            so, _ = self.compare_all(part, keep, module="MCWalk" if op == "walk" else "MCParse", want=("sexp",) if op == "sexp" else (), judge=judge)
            for c in part:
                g, w = origin[c["id"] - 1]
                if w is not None and lib.crc(lib.canon(c, so[c["id"]])) != w:
                    raise Broken("the library is stale: another outcome now for %r of %s" % (c["src"], g))
        # cases made of what is new in the code, if anything is
        op = fm.FAMILIES[families[0]].op
        new = self.prepare(literals.cases(self.rng))
        for c in new:
            c.update(op=op, ops=[op] if op else [], pol=[self.rng.randrange(3) for _ in range(self.rng.randrange(4))] if op == "walk" else [])
            c.update(lib.VARIED[vary](c, salt))
        if new:
            self.compare_all(new, keep, module="MCWalk" if op == "walk" else "MCParse", want=("sexp",) if op == "sexp" else (), judge=judge)
        self.cov["cases_of_new_literals"] += len(new)
        self.pumped(keep, judge, op, vary, salt)

    def pumped(self, keep, judge, op, vary, salt):
        """What repeats, repeated thousands of times (pump.py)."""
        want = ("sexp",) if op == "sexp" else ()
        pumps = pump.PUMPS + list(pump.some(self.rng, 1500 if self.deep else 25))
        cases, so = [], {}
        for p, f in pump.cases(self.spec, pumps, op, want):
            n = pump.size(p, self.rng.randrange(1000))
            c = dict(id=len(cases) + 1, mode=p[0], nvim=False, src=pump.source(p, n), op=op, ops=[op] if op else [], pol=[])
            c.update(lib.VARIED[vary](c, salt))
            c.pop("pre", 0)
            c["pump"] = [p, n]
            cases.append(c)
            so[c["id"]] = f(n)
        if len(cases) < 100:
            raise Broken("only %d of %d repetitions have a law" % (len(cases), len(pumps)))
        co = core.run_driver(cases)
        for c in cases:
            s, g = so[c["id"]], co.get(c["id"])
            self.validated += 1
            self.note(c, s)
            ds = [d for d in core.compare(s, g, c.get("file", "") if c["mode"] == "file" else "") if keep(d.aspect)]
            if judge and g is not None and "hang" not in g:
                ds += judge(c, s, g)
            if ds:
                self.violation("; ".join(map(str, ds[:3])), self.record(c, aspects=sorted({d.aspect for d in ds}), differences=[str(d)[:1000] for d in ds[:5]], pump=c["pump"]))
        self.cov["repetitions_by_the_thousand"] += len(cases)

    # -------------------------------------------------------------- ending
    def finish(self, level="model_checking", coverage=None):
        cov = dict(states=self.spec.states, transitions=self.spec.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples[:8] or ["none"])
        cov.update(self.cov)
        if self.msgs:
            cov["distinct_errors_specified"] = len(self.msgs)
        cov.update(coverage or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 1), violations=len(self.bad))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        for e in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        if not self.bad:
            log("%s holds on everything explored: %d behaviours of the specification replayed into the code, %d states, %.0f s" %
                (self.prop, self.validated, self.spec.states, time.time() - self.t0))
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for what, rec in self.bad[:5]:
            h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
            p = os.path.join(d, "%s-%s.json" % (self.prop, h))
            rec["what"] = what
            with open(p, "w", encoding="utf-8") as f:
                json.dump(rec, f, indent=1)
                f.write("\n")
            if "src" in rec:
                log("input (%s%s): %r" % (rec["mode"], ", neovim" if rec.get("nvim") else "", rec["src"].encode("latin-1")[:300]))
            log("  " + what[:600])
            log("VIOLATION property=%s replay=%s" % (self.prop, p))
        if len(self.bad) > 5:
            log("... and %d more" % (len(self.bad) - 5))
        return 1


POSITIONS = {"pos", "ea.lp", "ea.cp", "ea.ap"}
ERRPLACE = {"errpos", "errfile", "errtext"}


def shape(a):
    """Everything but positions and the wording of errors."""
    return a not in POSITIONS and a not in ERRPLACE and a != "file"


def everything(a):
    return True


PARSED = [f for f in fm.FAMILIES if not fm.FAMILIES[f].op]


READ = ["blank", "chars", "fold", "size", "long", "verb", "files"]


def totality(a):
    return a in {"panic", "hang", "both", "none", "internal", "missing"}


def c04(rng, deep):
    yield from cs.c04(rng, deep)
    for _ in range(20000 if deep else 1200):
        a, b = literal(rng), literal(rng)
        s = rng.choice(["A", "A", "[A, B]", "{A: B}", "x[A]", "A B", "AB", "f(A)", "A.B", "(A)", "A + B", "#{a: A}", "A)", "{-> A}", "A->f(B)"]).replace("A", a.replace("B", "b")).replace("B", b)
        yield ("expr", False, s) if rng.random() < 0.7 else ("file", False, rng.choice(["echo ", "let x = ", "call f(a)|echo "]) + s)


def profile(gen, keep, judge=None, **kw):
    def run(ck):
        cases = ck.part(ck.prepare(gen(ck.rng, ck.deep)))
        for c in cases:
            for k, v in kw.items():
                c.setdefault(k, v)
        ck.compare_all(cases, keep, judge=judge)
        ck.library(PARSED, keep, judge=judge, vary="named")
        return ck.finish()
    return run


# -------------------------------------------------------------------- C01

def deeply(k):
    """k levels of each kind of nesting."""
    for a, b in [("(", ")"), ("[", "]"), ("f(", ")"), ("a[", "]"), ("!", ""), ("-", ""), ("a?b:", ""), ("a.", "b"), ("a+", ""), ("x->f(", ")"), ("a->b().", "c"), ("x[1:", "]"), ("a==(", ")"), ("a||", ""), ("a&&", ""), ("a..", "")]:
        yield "expr", False, a * k + "1" + b * k
        yield "file", False, "echo " + a * k + "1" + b * (k - 1)
    for a, b in [("if 1\n", "endif\n"), ("while 1\n", "endwhile\n"), ("function F()\n", "endfunction\n"), ("try\n", "endtry\n"), ("for a in b\n", "endfor\n"), ("if 1|", "endif|"), ("if 1\nelse\n", "endif\n")]:
        yield "file", False, a * k + b * k
        yield "file", False, a * k + b * (k - 1)


def c01(ck):
    cases = ck.prepare(ck.part(list(cs.c01(ck.rng, ck.deep))) + list(deeply(500 if ck.deep else 250)))
    for c in cases:
        c["ops"] = ["cmds"]

    def judge(c, s, g):
        return [core.Diff("cmdpanic", "", "no panic", g["cmdpanic"])] if "cmdpanic" in g else []
    ck.compare_all(cases, totality, judge=judge)
    ck.library(PARSED, totality, vary="named")
    return ck.finish()


# -------------------------------------------------------------------- C02

def blocks(ck, ws, depth):
    """Every legal prefix of at most depth lines, and every line after it."""
    cells = ck.spec.cells
    rows = "\n".join(json.dumps(dict(id=k, w=cells.encode(w)), ensure_ascii=False) for k, w in enumerate(ws)) + "\n"
    w = dict(cells.width) or {}
    w["\u3042"] = 3
    vals, stat = core.run_tlc("MCBlocks", {
        "cases.ndjson": rows, "widths.ndjson": json.dumps(w, ensure_ascii=False) + "\n" +
        json.dumps(dict(depth=depth, v=cells.cell("\x16"), g=cells.cell("\x07")), ensure_ascii=False) + "\n"})
    ck.spec.add(stat)
    cases = []
    so = {}
    for v in vals:
        c = dict(id=len(cases) + 1, mode="file", nvim=False, src="\n".join(ws[k - 1] for k in v["w"]) + ("\n" if v["w"] else ""))
        cases.append(c)
        o = ck.spec.outcome(dict(id=c["id"], r=v["r"], pos=v["pos"]))
        if v["w"] == []:
            o["tree"][1] = [0, 0, 0]
        so[c["id"]] = o
    return cases, so


def nesting(a):
    return shape(a) or a == "errpos"


def c02(ck):
    for ws, depth in ((cs.BLOCKWORDS, 5 if ck.deep else 4), (cs.BLOCKWORDS + ["return 1", "endif|if 2", "try|catch /x/", "if 3|else", ":else \"c", "catch /E/|finally"], 4 if ck.deep else 3)):
        cases, so = blocks(ck, ws, depth)
        if len(cases) < 1000:
            raise Broken("the specification explored %d scripts only" % len(cases))
        co = core.run_driver(cases)
        ck.cov["scripts_enumerated_by_TLC"] += len(cases)
        for c in cases:
            s, g = so[c["id"]], co.get(c["id"])
            ck.validated += 1
            ck.note(c, s)
            ds = [d for d in core.compare(s, g) if nesting(d.aspect)]
            if ds:
                ck.violation("; ".join(map(str, ds[:3])), ck.record(c, aspects=sorted({d.aspect for d in ds}), differences=[str(d) for d in ds[:5]]))
    ck.compare_all(ck.part(ck.prepare(cs.c02(ck.rng, ck.deep))), nesting)
    ck.library(PARSED, nesting, vary="named")
    return ck.finish()


# -------------------------------------------------------------------- C06

def strip_pos(t):
    """A tree of the code without positions."""
    if isinstance(t, list) and t and isinstance(t[0], str) and len(t) >= 4:
        r = [t[0], t[2], [strip_pos(c) for c in t[3]]]
        if len(t) > 4:
            r.append({k: v for k, v in t[4].items() if k not in ("lp", "cp", "ap")} if t[4] else None)
        return r
    return t


# -------------------------------------------------------------- C13, C14

BASES = [t for t in cs.TRUNC] + cs.FIELDPOS
BASEX = ["a", "1", "a + b * c", "a ? b : c", "!a", "x[1]", "x[1:2]", "x[:]", "x[1:]", "x[:2]", "f(a, b)", "x->f(a)", "x->{a -> b}(c)", "a.b.c", "[a, b]", "{'a': b, c: d}",
         "#{a: b}", "{a, b -> c}", "{-> 1}", "x{a}y{b}", "{a}", "(a)", "&o", "@a", "$E", "'s'", "0zFF", "f({x -> x + y})", "a.b(c)[d]->e({'k': #{l: [m]}})", "((a))", "-(-a)"]


def c13(ck):
    rng = ck.rng
    pols = [list(map(int, p)) for p in cs.words(["0", "1", "2"], 1, 3)]
    cases = []
    for s in BASEX:
        for p in (pols if ck.deep else rng.sample(pols, 10) + [[], [1], [2]]):
            cases.append(("expr", False, s, dict(pol=p)))
    for s in BASES:
        for p in (pols if ck.deep else rng.sample(pols, 5) + [[], [2]]):
            cases.append(("file", False, s, dict(pol=p)))
    n = 20000 if ck.deep else 1300

    def pol():
        return rng.choice([[], [], [1], [2], [1, 2]]) if rng.random() < 0.4 else [rng.choice([0, 1, 1, 1, 2, 2]) for _ in range(rng.randint(1, 9))]
    for m, nv, s in list(cs.exprs(rng, n, 4, 0.0)) + list(cs.scripts(rng, n, 2, 0.0)):
        cases.append((m, nv, s, dict(pol=pol())))
    cases = ck.prepare(cases)
    for c in cases:
        c["ops"] = ["walk"]

    def judge(c, s, g):
        out = []
        if "tree" not in s or "tree" not in g:
            return out
        for k in ("walkpanic", "insppanic"):
            if k in g:
                out.append(core.Diff(k, "", "no panic", g[k]))
        if s["walk"] != g.get("walk"):
            out.append(core.Diff("walk", "", s["walk"], g.get("walk")))
        if [e[1:] for e in s["walk"]] != g.get("insp"):
            out.append(core.Diff("inspect", "", [e[1:] for e in s["walk"]], g.get("insp")))
        if not g.get("kept", True):
            out.append(core.Diff("kept", "", "the tree as it was", "a changed tree"))
        ck.cov["visitor_calls_replayed"] += len(s["walk"])
        return out
    ck.compare_all(cases, lambda a: a in ("panic", "hang"), module="MCWalk", judge=judge)
    ck.library(["walk"], lambda a: a in ("panic", "hang"), judge=judge, vary="named")
    return ck.finish()


NASTY = ["%s", "%d%%", "\\", "\\\\", "\"", "'", "a\"b", "\t", "x\ty", "(", ")", "(a", ";", "é", "\udcff", "\x01", "a b", "", " ", "\x7f", "%!s(x)", "`", "|"]


def c14cases(rng, deep):
    for s in BASEX:
        yield "expr", False, s
        yield "file", False, "echo " + s
    for s in BASES:
        yield "file", False, s
        yield "file", False, "if 1\n" + s + "\nendif"
        yield "file", False, "function F()\ntry\n" + s + "\ncatch\nendtry\nendfunction"
    for t in NASTY:
        for f in ("echo '%s'", "let x = '%s'", "echo \"%s\"", "\" %s", "\"%s", "normal %s", "set x=%s", "echohl %s", "map %s %s", "let x =<< E\n%s\nE", "let x =<< trim E\n  %s\n  E", "append\n%s\n.", "Foo %s|x",
                  "throw '%s'", "call f('%s')", "try\ncatch /%s/\nendtry", "if '%s'\nelseif '%s'\nendif", "function F(a = '%s')\nendfunction", "let {'%s'} = 1", "echo {'%s': '%s'}", "lua << E\n%s\nE", "s/%s/x/",
                  "loadkeymap\n%s", "return '%s'", "execute '%s' \"%s\"", "eval '%s'", "while '%s'\nendwhile", "for x in '%s'\nendfor", "echo x['%s']", "unlet x['%s']", "lockvar x['%s']", "delfunction d['%s']"):
            s = f.replace("%s", t.replace("'", "''") if "'%s'" in f else t)
            yield "file", False, s
            if deep or rng.random() < 0.3:
                yield "file", False, "if 1\n" + s + "\n\" end\nendif"
    for d in (9, 17, 33, 34, 40, 65, 66, 70, 129, 140, 257) if deep else (9, 17, 33, 65, rng.randint(34, 64), rng.randint(66, 130)):
        for kinds in (["if"], ["while"], ["function"], ["try"], ["for"], ["if", "try", "function", "for", "while"]):
            ks = [kinds[j % len(kinds)] for j in range(d)]
            yield "file", False, "".join({"if": "if 1\n", "while": "while 1\n", "function": "function F()\n", "try": "try\n", "for": "for a in b\n"}[k] for k in ks) + "echo 1\n\" c\n" + "".join("end%s\n" % k for k in reversed(ks))
    n = 40000 if deep else 3000
    for c in cs.scripts(rng, n, 3, 0.0, wide=0.2):
        yield c
    for c in cs.commands(rng, n, 0.1, wide=0.2):
        yield c
    for c in cs.exprs(rng, n, 4, 0.0, wide=0.2, odd=0.1):
        yield c
    for name, src in cs.test_files():
        if len(src) < 4000:
            yield "file", False, src
    for c in cs.c02(rng, False) if deep else []:
        yield c


def tabbed(line):
    k = len(line) - len(line.lstrip(" "))
    return "\t" * (k // 2) + " " * (k % 2) + line[k:]


def c14(ck):
    rng = ck.rng
    cases = ck.prepare(list(c14cases(rng, ck.deep)) + list(deeply(rng.randint(33, 70))))
    for c in cases:
        c["ops"] = ["sexp"]
        c["wfail"] = rng.choice([-1, 0, 1, 2, 5, 10, 20, 40, 80, 200, 4095, 4096, 4097])

    def judge(c, s, g):
        if "tree" not in s or "tree" not in g:
            return []
        out = []

        def d(a, want, got):
            out.append(core.Diff(a, "", want, got))
        want = "\n".join(s["sexp"]) + ("\n" if s["sexp"] and c["mode"] == "file" else "")
        tab = "\n".join(map(tabbed, s["sexp"])) + ("\n" if s["sexp"] and c["mode"] == "file" else "")
        if "sexppanic" in g:
            d("compilepanic", "no panic", g["sexppanic"])
            return out
        if "sexperr" in g:
            d("compileerr", want, g["sexperr"])
            return out
        if g["sexp"] != want:
            d("sexp", want, g["sexp"])
        if g.get("sexptab") != tab:
            d("indent", tab, g.get("sexptab"))
        if "twin" in g:
            d("twin", g["sexp"], g["twin"])
        if "sexpways" in g:
            d("ways", g["sexp"], g["sexpways"])
        if not g["sexpagain"]:
            d("again", "the same again", "another text")
        if c.get("wfail", -1) >= 0:
            fails = len(want) > c["wfail"]
            if g["sexpwnil"] == fails or g["sexpwerr"] != fails:
                d("writeerr", "the writer's error" if fails else "no error", [g["sexpwerr"], g["sexpwnil"]])
        if not g.get("kept", True):
            d("kept", "the tree as it was", "a changed tree")
        ck.cov["lines_compared"] += len(s["sexp"])
        return out
    ck.compare_all(cases, lambda a: a in ("panic", "hang"), want=("sexp",), judge=judge)
    ck.library(["sexp"], lambda a: a in ("panic", "hang"), judge=judge, vary="named")
    return ck.finish()


# -------------------------------------------------------------------- C15

def c15cases(rng, deep):
    ops = cs.BINOPS
    from itertools import product
    for p, q in product(ops, repeat=2):
        for f in ("a %p b %q c", "(a %p b) %q c", "a %p (b %q c)"):
            yield "expr", False, f.replace("%p", p).replace("%q", q)
    for p, q, r in product(cs.LEVELS, repeat=3):
        k = rng.randrange(5)
        for f in (["((a %p b) %q c) %r d", "(a %p b) %q (c %r d)", "a %p (b %q (c %r d))", "a %p ((b %q c) %r d)", "(a %p (b %q c)) %r d"] if deep else
                  [["((a %p b) %q c) %r d", "(a %p b) %q (c %r d)", "a %p (b %q (c %r d))", "a %p ((b %q c) %r d)", "(a %p (b %q c)) %r d"][k]]):
            yield "expr", False, f.replace("%p", p).replace("%q", q).replace("%r", r)
    for u in cs.words(["!", "-", "+"], 1, 3):
        for p in cs.LEVELS:
            for f in ("%u(a %p b)", "(%ua) %p b", "a %p %ub", "%ua[b %p c]", "%u(a[b]) %p c", "(%ua)[b] %p c", "(a %p b)[%uc]", "%u(a %p b)[c]", "%u((a)) %p ((b))", "a[b][%uc %p d]"):
                yield "expr", False, f.replace("%p", p).replace("%u", u)
    for a in cs.NUMS + cs.BLOBS + cs.STRS + cs.NAMES + cs.OPTS + cs.ENVS + cs.REGS:
        for f in ("%s", "-%s", "%s + %s", "%s[%s]", "(%s)", "%s . %s", "%s == %s", "((%s))[(%s)]", "%s - -%s", "%s . (%s . %s)", "%s %s"):
            yield "expr", False, f.replace("%s", a)
    for s in BASEX:
        for f in ("%s", "%s + 1", "1 + %s", "!%s", "(%s)", "x[%s]", "%s[x]", "%s == (a == b)"):
            yield "expr", False, f.replace("%s", s)
    n = 60000 if deep else 5000

    for _ in range(n // 5):
        yield "expr", False, literal(rng)
    for _ in range(n):
        yield "expr", False, rnd(rng, ops, rng.randint(1, 5))
    for c in cs.exprs(rng, n // 3, 3, 0.0):
        yield c


def literal(rng):
    """A literal or name of any length."""
    n = rng.choice([1, 2, 3, 5, 8, 9, 12, 16, 17, 20, 33, 64, 70, 130])
    w = lambda a, m=n: "".join(rng.choice(a) for _ in range(m))
    L, D = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", "0123456789"
    return rng.choice([lambda: rng.choice(["0x", "0X"]) + w("0123456789abcdefABCDEF"), lambda: w(D), lambda: w(D) + "." + w(D, rng.choice([1, n])), lambda: w(D) + "." + w(D, 2) + rng.choice(["e", "E", "e+", "E-"]) + w(D, 2),
                       lambda: rng.choice(["0z", "0Z"]) + w("0123456789abcdefABCDEF", 2 * n), lambda: "0z" + ".".join(w("0123456789ABCDEF", 8) for _ in range(min(n, 9))), lambda: rng.choice(["", "s:", "g:", "a:", "l:", "v:", "w:", "b:", "t:"]) + w(L),
                       lambda: w(L) + "#" + w(L), lambda: "&" + rng.choice(["", "l:", "g:"]) + w("abcdefghijklmnopqrstuvwxyz"), lambda: "$" + w(L), lambda: "@" + rng.choice(L + D + "\"*+.-/#%:="), lambda: "'" + w(L + D + " \\\"é|%\t").replace("'", "''") + "'",
                       lambda: "'" + "''" * n + "'", lambda: "\"" + w(L + D + " 'é|%\t") + "\"", lambda: "\"" + "".join(rng.choice(["\\n", "\\\"", "\\\\", "\\<CR>", "\\x41", "a", "\\u00e9", "%"]) for _ in range(n)) + "\""])()


def rnd(rng, ops, d):
    """A text of what the printer knows."""
    k = rng.randrange(9)
    if k == 0 and rng.random() < 0.3:
        return literal(rng)
    if d == 0 or k == 0:
        return rng.choice(["a", "1", "'s'", "\"t\\\"\"", "&o", "@a", "$E", "s:x", "1.5", "0zFF", "x#y", "'é'", "is", "'\\'", "0x1F"])
    if k == 1:
        return rng.choice(["!", "-", "+"]) + rnd(rng, ops, d - 1)
    if k == 2:
        return rnd(rng, ops, d - 1) + "[" + rnd(rng, ops, d - 1) + "]"
    if k in (3, 4):
        return "(" + rnd(rng, ops, d - 1) + ")"
    return rng.choice(["(%s)", "%s", "(%s)"]).replace("%s", rnd(rng, ops, d - 1)) + " " + rng.choice(ops) + " " + rng.choice(["(%s)", "%s", "(%s)"]).replace("%s", rnd(rng, ops, d - 1))


def sieved(args):
    """Expressions of one lot that the driver does not see printed and read back as they are."""
    exe, seed, n = args
    r = random.Random(seed)
    ops, out = cs.BINOPS, []
    g = cs.exprs(r, n // 4, 4, 0.1, wide=0.1, odd=0.05)
    xs = [rnd(r, ops, r.randint(1, 5)) for _ in range(n - n // 4)] + [c[2] for c in g]
    t = [(a, b, c) for a in ops for b in ops for c in ops]
    for _ in range(n // 4):
        a, b, c = r.choice(t)
        x, y, z, w = (r.choice(["a", "-a", "!a", "a[b]", "'s'", "1", "(a)", "((a))", "@a", "&o"]) for _ in range(4))
        xs.append(r.choice(["((X p Y) q Z) r W", "(X p Y) q (Z r W)", "X p (Y q (Z r W))", "X p ((Y q Z) r W)", "(X p (Y q Z)) r W", "X p Y q Z r W", "X p Y q (Z r W)", "-(X p Y)[Z q W]", "!(X p Y) q Z", "(X p Y)[Z] q W", "X[Y p (Z q W)]"])
                  .translate({ord(k): v for k, v in zip("XYZWpqr", (x, y, z, w, a, b, c))}))
    cases = [dict(src=s, mode="expr", nvim=False, op="print", pol=[]) for s in xs if lib.tame(s)]
    got = lib.code_digests(exe, cases)
    usual = zlib.crc32(b"") & 0xffffff
    return len(cases), [c["src"] for c, g in zip(cases, got) if g != usual and c["src"]]


def sieve(ck, most=600):
    """Many expressions through the driver's sieve; those that stay are judged with the others."""
    import multiprocessing
    exe = core.build_driver()
    lots = [(exe, "sieve/%d/%d" % (ck.seed, k), 150000 if ck.deep else 40000) for k in range(8)]
    with multiprocessing.Pool(8) as pool:
        res = pool.map(sieved, lots)
    ck.cov["expressions_sieved"] += sum(n for n, x in res)
    xs = sorted({s for n, x in res for s in x})
    ck.cov["expressions_caught_in_the_sieve"] += len(xs)
    return xs if len(xs) <= most else ck.rng.sample(xs, most)


def c15(ck):
    rng = ck.rng
    cases = ck.prepare(list(c15cases(rng, ck.deep)) + [("expr", False, s) for s in sieve(ck)])
    for c in cases:
        c["ops"] = ["print"]
        c["wfail"] = rng.choice([-1, 0, 1, 3, 7, 15])
    co = core.run_driver(cases)
    rows, todo = [], []
    for c in cases:
        g = co.get(c["id"])
        if g is None or "hang" in g or "panic" in g:
            ck.violation("no outcome", ck.record(c, aspects=["hang"]))
            continue
        if "tree" not in g:
            p = q = None
        else:
            p = None if "printerr" in g or "printpanic" in g else g["print"]
            q = None if "sprinterr" in g or "sprintpanic" in g else g["sprint"]
        raw = lambda s: s.encode("latin-1").decode("utf-8", "surrogateescape")
        enc = lambda s: [ck.spec.cells.encode(l) for l in core.lines_of(raw(s))] if s is not None else []
        rows.append(dict(id=c["id"], m="expr", nvim=False, want=[], pol=[], lines=[ck.spec.cells.encode(l) for l in core.lines_of(c["src"])],
                         p=enc(p), q=enc(q), printed=p is not None))
        todo.append((c, g, p, q))
    verdict = {}
    for k in range(0, len(rows), 15000):
        ck.spec.cells.encode("\x16\x07\r")
        w = dict(ck.spec.cells.width)
        w["\u3042"] = 3
        vals, stat = core.run_tlc("MCPrint", {
            "cases.ndjson": "\n".join(json.dumps(r, ensure_ascii=False) for r in rows[k:k + 15000]) + "\n",
            "widths.ndjson": json.dumps(w, ensure_ascii=False) + "\n" + json.dumps(dict(
                v=ck.spec.cells.cell("\x16"), g=ck.spec.cells.cell("\x07"), m=ck.spec.cells.cell("\r")), ensure_ascii=False) + "\n"})
        ck.spec.add(stat)
        for v in vals:
            verdict.setdefault(v["id"], set()).add(v["v"])
    for c, g, p, q in todo:
        v = verdict.get(c["id"])
        if not v:
            raise Broken("no verdict for %r" % c["src"])
        ck.validated += 1
        what = None
        if "printpanic" in g or "sprintpanic" in g:
            what = "printing panics: " + g.get("printpanic", g.get("sprintpanic"))
        elif "rejected" in v:
            ck.cov["rejected"] += 1
            continue                # that the code rejects it too is C03's and C16's
        elif "unsupported" in v:
            ck.cov["unsupported_kinds"] += 1
            if "tree" in g and p is not None:
                what = "a tree the printer does not support is printed as %r" % p
        elif "unprinted" in v:
            what = "a supported tree is not printed: %s" % g.get("printerr", "no tree")
        elif "different" in v:
            what = "the printed text %r is not the same tree" % p
        elif "different without parentheses" in v:
            what = "the text %r printed of the tree without parenthesis nodes is not the same tree" % q
        else:
            ck.cov["round_trips"] += 1
        if not what and "tree" in g and c["wfail"] >= 0 and p is not None:
            fails = len(p) > c["wfail"]
            if g["printwnil"] == fails or g["printwerr"] != fails:
                what = "a writer that fails after %d bytes: error returned %s, nil returned %s" % (c["wfail"], g["printwerr"], g["printwnil"])
        if not what and not g.get("kept", True):
            what = "printing changed the tree"
        if ck.validated % 4001 == 7:
            ck.samples.append(dict(source=c["src"], printed=p, without_parentheses=q, verdict=sorted(v)))
        if what:
            ck.violation(what, ck.record(c, aspects=["print"]))
    if ck.cov["round_trips"] < 3000:
        raise Broken("only %d round trips" % ck.cov["round_trips"])
    return ck.finish()


# -------------------------------------------------------------------- C16

def errors_only(a):
    return a in {"verdict", "errmsg", "errpos", "errfile", "errtext", "internal", "panic", "hang", "both", "none"}


# -------------------------------------------------------------------- C17

def c17(ck):
    rng = ck.rng
    # the design: calls that share nothing; and that the model can tell
    vals, stat = core.run_tlc("MCCalls", {})
    ck.spec.add(stat)
    hit, stat = core.run_tlc("MCCalls", {}, cfg="MCCallsShared.cfg", refuted="Isolated")
    ck.spec.add(stat)
    if not hit:
        raise Broken("the model does not see the effect of a shared cache")
    base = [("file", False, t) for t in cs.TRUNC] + [("file", True, t) for t in cs.FIELDPOS[:20]] + [("expr", False, s) for s in BASEX[::2]]
    fixed = ["Foo\nFoobar x\nFoo2", "Foobar\nFoo", "Print\nP\nPrintx", "tno x\nterminal", "rshada\nwshada", "rviminfo", "tnoremap x", "rv", "wv", "rsh", "te", "tn x", "Man x", "checkhealth", "Next\nN\nNextx",
             "dl\ndp\nd", "k a", "ec 1\nech 2\necho 3\nechoh X", "function F(a)\nendfunction\nfunction G(a, a)\nendfunction", "catch", "let x =<< E\nE", "xyz", "mode", "Mode", "if 1", "hi", "open", "ope", "fixdel"]
    base += [("file", v, s) for s in fixed for v in (False, True)]
    base += list(cs.scripts(rng, 60 if not ck.deep else 200, 2, 0.2)) + list(cs.exprs(rng, 40, 3, 0.1))
    cases = ck.prepare(base)
    for c in rng.sample(cases, 40):
        if c["mode"] == "file":
            cases += [dict(c, nvim=not c["nvim"]), dict(c), dict(c, mode="expr")]
    for k, c in enumerate(cases):
        c["id"] = k + 1
        c["ops"] = [["sexp"], ["sexp", "walk"], ["sexp", "print", "twice"], ["sexp", "cmds", "walk", "twice"]][k % 4]
        c["file"] = "f%d.vim" % (k % 5 if k % 3 else k) if c["mode"] == "file" else ""
        c["pol"] = [1, 2, 1, 0][k % 3:]
        if not c["nvim"] and k % 5 == 0:
            c["nilopt"] = True
    so = ck.outcomes(cases, want=("sexp",))
    for c in cases[:3]:
        ck.sample(c, so[c["id"]])
    exe = core.build_driver(race=True)
    rounds, workers = (40, 16) if ck.deep else (8, 12)
    inp = []
    for c in cases:
        q = dict(id=c["id"], src=core.lat(core.to_bytes(c["src"])), mode=c["mode"], nvim=c["nvim"], file=c["file"], ops=c["ops"], pol=c["pol"], nilopt=bool(c.get("nilopt")))
        inp.append(json.dumps(q))
    env = core.goenv()
    env["GORACE"] = "halt_on_error=0 exitcode=66 history_size=5"
    try:
        p = subprocess.run([exe, "conc", str(ck.seed), str(rounds), str(workers)], input="\n".join(inp).encode(), env=env, cwd=core.scratch(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
    except subprocess.TimeoutExpired:
        raise Broken("the concurrent run took too long")
    err = p.stderr.decode("utf-8", "replace")
    if "WARNING: DATA RACE" in err:
        ck.violation("data race: " + err[:1500], dict(property="C17", race=err[:6000], cases=[ck.record(c) for c in cases[:50]]))
        return ck.finish()             # the process may have died of it, its output cut short
    if p.returncode != 0:
        if "fatal error: concurrent map" in err or "panic" in err:
            ck.violation("the process died: " + err[:800], dict(property="C17", died=err[:6000]))
            return ck.finish()
        raise Broken("the concurrent driver ended with %d: %s" % (p.returncode, err[-2000:]))
    byid = {c["id"]: c for c in cases}
    legal = {c["id"]: [] for c in cases}
    hist = None
    why = {}
    for line in p.stdout.split(b"\n"):
        if not line:
            continue
        r = json.loads(line)
        if "history" in r:
            hist = r["history"]
            continue
        g = r["result"]
        c = byid[g["id"]]
        s = so[c["id"]]
        ds = core.compare(s, g, c["file"])
        if "tree" in s and "sexp" in g:
            want = "\n".join(s["sexp"]) + ("\n" if s["sexp"] and c["mode"] == "file" else "")
            if g["sexp"] != want:
                ds.append(core.Diff("sexp", "", want, g["sexp"]))
        for k in ("twice", "kept", "sexpagain"):
            if g.get(k) is False:
                ds.append(core.Diff(k, "", True, False))
        for k in ("sexppanic", "printpanic", "sprintpanic", "walkpanic", "insppanic", "cmdpanic", "sexperr"):
            if k in g:
                ds.append(core.Diff(k, "", "none", g[k]))
        if not ds:
            legal[c["id"]].append(r["class"])
        else:
            why[r["class"]] = (c, ds)
    if not hist:
        raise Broken("no history")
    # TLC reads the history
    files = {"trace.ndjson": "\n".join(json.dumps(e) for e in hist) + "\n",
             "legal.ndjson": "\n".join(json.dumps(legal[k]) for k in sorted(legal)) + "\n", "workers.ndjson": json.dumps(workers) + "\n"}
    assert sorted(legal) == list(range(1, len(cases) + 1))
    vals, stat = core.run_tlc("CallTrace", files)
    ck.spec.add(stat)
    if len(vals) != 1:
        raise Broken("the history was read %d times" % len(vals))
    m = vals[0]["matched"]
    ck.cov["calls_in_history"] = len(hist) // 2
    ck.cov["goroutines"] = workers
    ck.cov["race_detector"] = 1
    ck.validated += len(hist) // 2
    if m != len(hist):
        e = hist[m]
        c, ds = why.get(e["r"], (byid[e["x"]], []))
        ck.violation("event %d of the history, the return of worker %d from input %r, is not the outcome the call has alone: %s" %
                     (m + 1, e["w"], c["src"], "; ".join(map(str, ds[:3]))),
                     ck.record(c, aspects=["history"], history=hist[max(0, m - 40):m + 1]))
    return ck.finish()


# -------------------------------------------------------------------- C18

CLIFILES = [("good.vim", "let x = 1\necho x\n"), ("bad.vim", "echo 1\n  let = )\n"), ("empty.vim", ""), ("é.vim", "\" é\necho 'é'\n"), ("a b.vim", "if 1\n echo 1 | echo 2\nendif"), ("bad2", "endif"),
            ("nv.vim", "rshada x\ntnoremap a b\n"), ("nv2.vim", "rviminfo x\n"), ("deep.vim", "function F(a, b = 1)\n  if 1\n    return a:b\n  endif\nendfunction\n"), ("d.vim/x", None), ("-dash.vim", "echo 3\n"),
            ("bin.vim", "echo \"\udcff\"\r\nlet x=1\r\n"), ("-", "echo 'dash'\n"), ("pct%s.vim", "echo '%s%d'\n"), ("badpct%d.vim", "let x = '%s' )\n"), ("big.vim", "echo 1\n" * 40), ("comment.vim", "\" c"),
            ("d.vim", "DIR"), ("bad3.vim", "function F(\n"), ("bad4.vim", "\n\nif 1\n")]


def c18(ck):
    rng = ck.rng
    names = [n for n, t in CLIFILES if t not in (None, "DIR")] + ["d.vim", "missing.vim", "no/such.vim", "", "/nonexistent/é.vim"]
    flags = ["-neovim", "--neovim", "-json", "--json", "-neovim=true", "-neovim=false", "-json=false", "--", "-json=T", "-neovim=0", "-x", "-h", "--help", "-neovim=x", "-neo", "-json=1"]
    argvs = [[]] + [[n] for n in names] + [[f] for f in flags] + [[a, b] for a in names for b in names]
    argvs += [[f, n] for f in flags for n in names] + [[n, f] for f in flags[:4] for n in names[:6]]
    argvs += [["-neovim", "-json", n] for n in names] + [["--", n, m] for n in names[:6] for m in ("-dash.vim", "-neovim", "missing.vim")]
    for _ in range(3000 if ck.deep else 500):
        argvs.append([rng.choice(flags) for _ in range(rng.choice([0, 0, 0, 1, 2]))] + [rng.choice(names) for _ in range(rng.randint(0, 6))])
    rng.shuffle(argvs)
    if not ck.deep:
        argvs = argvs[:1300]
    # standard input under every option, and very many files
    STDINS = ["echo 'in'\n", "", "let )", "if 1\n\" c\nendif\n", "rshada\n", "tnoremap a b\nfixdel\n", "fixdel", "echo 1\necho ]\n"]
    pinned = [([f] if f else [], t) for f in [""] + flags for t in STDINS]
    argvs = [a for a, t in pinned] + argvs
    ok, ko = ["good.vim", "é.vim", "empty.vim", "-"], ["bad.vim", "bad2", "missing.vim", "d.vim", "bad3.vim", "no/such.vim"]
    for n in (100, 127, 128, 255, 256, 257, 512) if not ck.deep else (31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 384, 500, 512, 768, 1000, 1024):
        argvs.append([ko[0]] * n)
        argvs.append(["--"] + [rng.choice(ok) for _ in range(5)] + [rng.choice(ko) for _ in range(n)])
        argvs.append(["--"] + [rng.choice(ok) for _ in range(n)])
        xs = [rng.choice(ko) for _ in range(n)] + [rng.choice(ok) for _ in range(20)]
        rng.shuffle(xs)
        argvs.append(["--"] + xs)
    exe = os.path.join(core.scratch(), "tool")
    p = subprocess.run(["go", "build", "-o", exe, "./cmd/vimlparser"], cwd=core.REPO, env=core.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Broken("the tool does not build: " + p.stdout.decode()[-2000:])
    d = os.path.join(core.scratch(), "cli")
    os.mkdir(d)
    fs = []
    enc = ck.spec.cells.encode
    for n, t in CLIFILES:
        if t is None:
            continue
        if t == "DIR":
            os.mkdir(os.path.join(d, n))
            fs.append(dict(name=n, kind="dir", lines=[]))
            continue
        with open(os.path.join(d, n), "wb") as f:
            f.write(core.to_bytes(t))
        fs.append(dict(name=enc(n), kind="file", lines=[enc(l) for l in core.lines_of(t)]))
    rows, runs = [], []
    for k, av in enumerate(argvs):
        stdin = pinned[k][1] if k < len(pinned) else rng.choice(STDINS)
        full = rng.random() < 0.12 and k >= len(pinned) and len(av) < 30
        rows.append(dict(id=k + 1, argv=[enc(a) for a in av], fs=fs, stdin=[enc(l) for l in core.lines_of(stdin)], full=full, m="file", nvim=False, want=[], pol=[], lines=[]))
        runs.append((av, stdin, full))
    ck.spec.cells.encode("\x16\x07\r")
    w = dict(ck.spec.cells.width)
    vals, stat = core.run_tlc("Cli", {"cases.ndjson": "\n".join(json.dumps(r, ensure_ascii=False) for r in rows) + "\n",
                                     "widths.ndjson": json.dumps(w, ensure_ascii=False) + "\n" + json.dumps(dict(
                                         v=ck.spec.cells.cell("\x16"), g=ck.spec.cells.cell("\x07"), m=ck.spec.cells.cell("\r")), ensure_ascii=False) + "\n"})
    ck.spec.add(stat)
    spec = {v["id"]: v for v in vals}
    dec = lambda s: ck.spec.cells.decode(s).encode("latin-1")
    ro = os.open(os.devnull, os.O_RDONLY)
    for k, (av, stdin, full) in enumerate(runs):
        v = spec.get(k + 1)
        if v is None:
            raise Broken("no outcome for %r" % (av,))
        try:
            p = subprocess.run([exe] + av, cwd=d, input=core.to_bytes(stdin), stdout=ro if full else subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                               preexec_fn=few if len(av) > 60 and k % 2 else None,
                               env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"})
        except subprocess.TimeoutExpired:
            ck.violation("the tool does not end: %r" % (av,), dict(property="C18", argv=av, stdin=stdin, full=full))
            continue
        ck.validated += 1
        what = cli_differs(v, p, full, dec)
        if k % 400 == 3:
            ck.samples.append(dict(argv=av, stdin=stdin, status=v["code"], reported=[dict(e, m=dec(e.get("m", "")).decode("utf-8", "replace")) for e in v["err"]]))
        if what:
            ck.violation("%r: %s" % (av, what), dict(property="C18", argv=av, stdin=stdin, full=full, stdout=core.lat(p.stdout or b""), stderr=core.lat(p.stderr), status=p.returncode))
    os.close(ro)
    # the same files below very many empty lines, which move their errors and nothing else
    e = os.path.join(core.scratch(), "cli2")
    os.mkdir(e)
    plain = [k for k, (av, stdin, full) in enumerate(runs) if not full and 0 < len(av) < 4 and any(n in av for n in ("good.vim", "bad.vim", "deep.vim", "bad2", "comment.vim", "bad3.vim", "bad4.vim", "pct%s.vim", "badpct%d.vim")) and not any(n.startswith("/") for n in av)]
    plain = [rng.choice([k for k in plain if n in runs[k][0] and spec[k + 1]["code"] == code]) for n, code in (("good.vim", 0), ("bad.vim", 1), ("deep.vim", 0), ("bad4.vim", 1))] + rng.sample(plain, 20 if ck.deep else 5)
    for lines in (1100000, 70000):
        for n, t in CLIFILES:
            if t == "DIR":
                os.makedirs(os.path.join(e, n), exist_ok=True)
            elif t is not None:
                with open(os.path.join(e, n), "wb") as f:
                    f.write(b"\n" * lines + core.to_bytes(t))
        for k in plain if lines > 100000 else plain[2:]:
            av, stdin, full = runs[k]
            v = dict(spec[k + 1])
            v["err"] = [dict(x, line=x["line"] + lines) if x["t"] == "parse" and dec(x["name"]) else x for x in v["err"]]
            p = subprocess.run([exe] + av, cwd=e, input=core.to_bytes(stdin), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200, env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"})
            ck.validated += 1
            ck.cov["runs_on_long_files"] += 1
            what = cli_differs(v, p, full, dec)
            if what:
                ck.violation("%r, each file below %d empty lines: %s" % (av, lines, what), dict(property="C18", argv=av, stdin=stdin, below=lines, status=p.returncode))
    return ck.finish()


def few():
    """No more open files than a tool needs that closes what it has read."""
    resource.setrlimit(resource.RLIMIT_NOFILE, (40, 40))


def cli_differs(v, p, full, dec):
    if p.returncode != v["code"]:
        if v["code"] == 0 or p.returncode <= 0 or p.returncode > 125:
            return "exit status %d, not %d" % (p.returncode, v["code"])
    if not full:
        if v["json"]:
            text = p.stdout.decode("utf-8", "replace")
            docs, at, jd = [], 0, json.JSONDecoder()
            while text[at:].strip():
                at += len(text[at:]) - len(text[at:].lstrip())
                try:
                    x, at = jd.raw_decode(text, at)
                except ValueError:
                    return "standard output is not JSON: %r" % text[at:at + 200]
                docs.append(x)
            if len(docs) != len(v["out"]):
                return "%d JSON trees, not %d" % (len(docs), len(v["out"]))
            for x, o in zip(docs, v["out"]):
                if not isinstance(x, dict) or len(x.get("Body") or []) != int(dec(o[0])):
                    return "a JSON tree has not %s commands" % o[0]
        else:
            want = b"".join(dec(l) + b"\n" for o in v["out"] for l in o)
            if p.stdout != want:
                return "standard output %r, not %r" % (p.stdout[:400], want[:400])
    # the reports, in order; usage may come with them
    lines = p.stderr.split(b"\n")
    at = 0
    used = 0
    for e in v["err"]:
        hit = None
        for j in range(at, len(lines)):
            l = lines[j]
            if e["t"] == "parse":
                n = dec(e["name"])
                m = dec(e["m"])
                want = b"%s:%d:%d: vimlparser: %s" % (n, e["line"], e["col"], m) if n else b"vimlparser: %s: line %d col %d" % (m, e["line"], e["col"])
                ok = l == want
            elif e["t"] in ("open", "read"):
                ok = dec(e["name"]) in l and l.strip() != b""
            else:
                ok = l.strip() != b""
            if ok:
                hit = j
                break
        if hit is None:
            return "standard error %r does not report %r" % (p.stderr[:500], e)
        at = hit + 1
        used += 1
    if not v["err"] and v["code"] == 0 and p.stderr.strip() and b"Usage" not in p.stderr:
        return "standard error is not empty: %r" % p.stderr[:300]
    return None


# -------------------------------------------------------------------- C19

def same_parser_scope(s):
    """Valid UTF-8, no NUL, no characters that Vim joins to the one before
    them, no multibyte character near an option of the form ++opt."""
    if "\0" in s or any(0xD800 <= ord(ch) < 0xE000 for ch in s):
        return False
    if any(unicodedata.category(ch) in ("Mn", "Me", "Mc", "Cf") or unicodedata.combining(ch) for ch in s if ch > "\x7f"):
        return False
    if "++" in s and not s.isascii():
        return False
    return depth(s) < 12


def depth(s):
    d = m = 0
    for ch in s:
        if ch in "([{":
            d += 1
            m = max(m, d)
        elif ch in ")]}":
            d = max(0, d - 1)
    return max(m, s.count("!") // 3, s.count("?") // 2, len(re.findall(r"\b(if|wh|fo|try|fu)", s)) // 3)


def c19cases(rng, deep):
    n = 10000 if deep else 700
    for name, src in cs.test_files():
        if len(src) < 6000:
            yield "file", "neo" in name, src
    for t in cs.TRUNC + cs.FIELDPOS:
        yield "file", False, t
    for s in BASEX:
        yield "expr", False, s
    for name, m, kind, flags, added in cs.table():
        for nv in (False, True):
            yield "file", nv, name + " a|b\n" + name[:m] + "! \"x|y"
    fams = dict(c02=0.05, c03=0.06, c04=0.06, c05=0.15, c06=0.06, c07=0.1, c08=0.04, c09=0.15, c10=0.08, c11=0.08, c12=0.1, c16=0.1, c21=0.1, c01=0.07)
    for f, share in fams.items():
        xs = list(getattr(cs, f)(rng, False))
        for c in pick_cases(rng, xs, int(n * 10 * share)):
            yield c
    for c in cs.scripts(rng, n, 2, 0.25, wide=0.2):
        yield c
    for c in cs.exprs(rng, n // 2, 3, 0.25, wide=0.2):
        yield c


def pick_cases(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


def vimenv(**kw):
    e = dict(PATH=core.goenv()["PATH"], HOME=core.scratch(), TERM="dumb", LC_ALL="C.UTF-8")
    e.update(kw)
    return e


def vim(script, cwd, rtp, env):
    return subprocess.Popen(["vim", "-u", "NONE", "-i", "NONE", "-N", "-n", "-es", "--cmd", "let &rtp .= ',' . $VP_RTP", "-S", script, "-c", "qa!"], cwd=cwd,
                            env=dict(env, VP_RTP=rtp), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def regenerate():
    """Runs the repository's generator on a copy; its directory."""
    d = os.path.join(core.scratch(), "regen")
    shutil.copytree(core.REPO, d, ignore=shutil.ignore_patterns(".git"))
    for f in ("vimlparser.go", "builtin_commands.go"):
        os.remove(os.path.join(d, "go", f))
    return d, [vim(s, d, d, vimenv()) for s in ("go/generate.vim", "go/gen_builtin_commands.vim")]


def vim_outcome(v):
    if "err" in v:
        return ["rejected", v["err"]]
    if "bad" in v:
        return ["not compiled", v["bad"]]
    # the Go tree has no mark for an empty pattern or a depth of 0
    return ["accepted", [re.sub(r"^( *\((?:un)?lockvar) 0(?= )", r"\1", re.sub(r"^( *catch) //(\)*)$", r"\1\2", l)) for x in v["out"] for l in x.split("\n")] or [""]]


def code_outcome(g, file=False):
    if "err" in g:
        return ["rejected", g["err"]["text"].encode("latin-1").decode("utf-8", "replace")]
    if "sexp" not in g:
        return ["not compiled", g.get("panic") or g.get("sexppanic") or g.get("sexperr")]
    t = g["sexp"].encode("latin-1").decode("utf-8", "replace")
    return ["accepted", (t[:-1] if t.endswith("\n") else t).split("\n")]


def spec_outcome(s):
    raw = lambda x: x.encode("latin-1").decode("utf-8", "replace")
    if "err" in s:
        l, c, _ = s["err"]["pos"]
        return ["rejected", "vimlparser: %s: line %d col %d" % (raw(s["err"]["msg"]), l, c)]
    return ["accepted", [l for x in s["sexp"] for l in raw(x).split("\n")] or [""]]


def code_lines(p):
    """Without the comments, which gofmt lays out in several ways."""
    return [l for l in open(p, "rb").read().split(b"\n") if not l.lstrip().startswith(b"//")]


def suspects(ck, repos, most=900):
    """Cases of the library of which one of the Go parsers makes something else
    than the specification does: those on which the parsers differ first."""
    seen, xs = set(), []
    for repo in repos:
        n, bad = lib.sweep(PARSED + ["sexp"], repo=repo)
        ck.cov["library_cases_replayed"] += n
        ck.cov["library_digests_that_differ"] += len(bad)
        for f, k, c in bad:
            key = (c["mode"], c["nvim"], c["src"])
            if key not in seen and same_parser_scope(c["src"]) and len(c["src"]) < 6000:
                seen.add(key)
                xs.append(dict(mode=c["mode"], nvim=c["nvim"], src=c["src"], ops=["sexp"]))
    if len(xs) > 20000:
        xs = ck.rng.sample(xs, 20000)
    for k, c in enumerate(xs):
        c["id"] = k + 1
    got = [core.run_driver(xs, repo=repo) for repo in repos] if xs else []
    odd = [c for c in xs if len({json.dumps(code_outcome(g.get(c["id"], {}))) for g in got}) > 1 or any("twin" in g.get(c["id"], {}) for g in got)]
    rest = [c for c in xs if all(c is not o for o in odd)] if len(xs) < 3000 else xs
    return pick_cases(ck.rng, odd, most) + pick_cases(ck.rng, rest, most // 3)


def c19(ck):
    regen, gens = regenerate()
    said = []
    limit = time.time() + 300
    for p in gens:
        try:
            said.append(p.communicate(timeout=max(1, limit - time.time()))[0].decode("utf-8", "replace"))
        except subprocess.TimeoutExpired:
            for q in gens:
                q.kill()
            ck.violation("the generator does not end", dict(property="C19", generator="timeout"))
            return ck.finish()
    # the generated parser
    same = True
    for f in ("vimlparser.go", "builtin_commands.go"):
        p = os.path.join(regen, "go", f)
        if not os.path.exists(p):
            ck.violation("the generator wrote no go/%s: %s" % (f, "\n".join(said)[-800:]), dict(property="C19", generator="\n".join(said)[-5000:]))
            return ck.finish()
        subprocess.run(["gofmt", "-s", "-w", p], env=core.goenv(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if code_lines(p) != code_lines(os.path.join(core.REPO, "go", f)):
            same = False
    ck.cov["generator_output_identical"] = int(same)
    repos = [None] if same else [None, regen]
    if not same:
        try:
            core.build_driver(repo=regen)
        except Broken as e:
            ck.violation("the generator's output does not build: %s" % e, dict(property="C19", generator=str(e)[-5000:]))
            return ck.finish()
    cases = [c for c in ck.prepare(c19cases(ck.rng, ck.deep)) if same_parser_scope(c["src"]) and len(c["src"]) < 6000]
    cases += suspects(ck, repos)
    cases += [c for c in ck.prepare(literals.cases(ck.rng, 1500)) if same_parser_scope(c["src"]) and len(c["src"]) < 6000]
    for k, c in enumerate(cases):
        c["id"] = k + 1
        c["ops"] = ["sexp"]
        c["file"] = ""
    d = os.path.join(core.scratch(), "vim")
    os.mkdir(d)
    order = sorted(cases, key=lambda c: len(c["src"]))
    jobs = []
    for w in range(8):
        part = order[w::8]
        ck.rng.shuffle(part)
        with open(os.path.join(d, "in%d" % w), "w", encoding="utf-8") as f:
            for c in part:
                f.write(json.dumps(dict(id=c["id"], m=c["mode"], nvim=int(c["nvim"]), lines=core.lines_of(c["src"])), ensure_ascii=False) + "\n")
        jobs.append(vim(os.path.join(VERIF, "vim", "replay.vim"), d, core.REPO, vimenv(CASES=os.path.join(d, "in%d" % w), OUTCOMES=os.path.join(d, "out%d" % w))))
    limit = time.time() + (5000 if ck.deep else 500)
    for p in jobs:
        try:
            said.append(p.communicate(timeout=max(1, limit - time.time()))[0].decode("utf-8", "replace"))
        except subprocess.TimeoutExpired:
            for q in jobs:
                q.kill()
            raise Broken("Vim took too long")
    vo = {}
    for w in range(8):
        p = os.path.join(d, "out%d" % w)
        if not os.path.exists(p):
            raise Broken("Vim gave no outcomes: " + "\n".join(said)[-2000:])
        for line in open(p, encoding="utf-8", errors="replace"):
            r = json.loads(line)
            vo[r["id"]] = r
    so = ck.outcomes(cases, want=("sexp",))
    runs = [core.run_driver(cases, repo=repo) for repo in repos]
    for k, c in enumerate(cases):
        ck.validated += 1
        s = so[c["id"]]
        ck.note(c, s)
        if c["id"] not in vo:
            raise Broken("Vim gave no outcome for %r" % c["src"])
        sides = [("the specification", spec_outcome(s)), ("the parser in Vim script", vim_outcome(vo[c["id"]]))]
        for g, n in zip(runs, ("the Go parser", "the newly generated Go parser")):
            r = g.get(c["id"], {})
            sides.append((n, code_outcome(r)))
            if "twin" in r:
                t = r["twin"].encode("latin-1").decode("utf-8", "replace")
                sides.append((n + "'s own compiler", ["accepted", (t[:-1] if t.endswith("\n") else t).split("\n")]))
        if len({json.dumps(o) for n, o in sides[1:]}) > 1:
            ck.violation("; ".join("%s: %s" % (n, core.short(o)) for n, o in sides), ck.record(c, aspects=["twin"]))
        elif sides[0][1] != sides[1][1]:
            ck.cov["agree_but_not_with_the_specification"] += 1
        if k % 900 == 5:
            ck.sample(c, s)
    return ck.finish()


# -------------------------------------------------------------------- C20

def c20(ck):
    rng = ck.rng
    # 1. every way to hand out small inputs, failing and not
    small = []
    al = [b"a", b"\n", b"\r", b"\xff", "é".encode(), b"|", b"\"", b"=", "あ".encode(), b"\xe3\x81", b"'", b"\x00", b" ", b"\\"]
    smalls = [b"", b"a", b"\n", b"\r\n", b"\xe3\x81\x82", b"'\xe3\x81'", b"'\xff'", b"a\r\nb", b"\"\xf0\x9f\x98\x80", b"\r", b"\n\r", b"a\n", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80", b"\"\r\r\n", b"a\n\\b"]
    for b in smalls:
        small.append(b)
    while len(small) < (200 if ck.deep else 55):
        b = b"".join(rng.choice(al) for _ in range(rng.randint(2, 5)))
        if len(b) <= 6:
            small.append(b)
    small = list(dict.fromkeys(small))
    rows, src = [], []
    tab = {}
    for k, b in enumerate(small):
        m = ["file", "expr"][k % 2]
        if m == "file" and k % 3 == 0:
            b = b"\"" + b
        rows.append(dict(id=k + 1, m=m, nvim=False, want=[], pol=[], lines=[], bytes=list(b), faults=len(b) <= 5))
        src.append((m, b))
        # a cell for every piece of the input that may be a character
        for i in range(len(b)):
            for j in range(i + 1, min(len(b), i + 4) + 1):
                try:
                    ch = b[i:j].decode("utf-8")
                except UnicodeDecodeError:
                    ch = b[i:j].decode("utf-8", "surrogateescape") if j == i + 1 else None
                if ch is not None and len(ch) == 1:
                    tab["".join("%d." % x for x in b[i:j])] = ck.spec.cells.cell(ch)
    ck.spec.cells.encode("\x16\x07\r")
    w = dict(ck.spec.cells.width)
    vals, stat = core.run_tlc("MCRead", {"cases.ndjson": "\n".join(json.dumps(r) for r in rows) + "\n", "chars.ndjson": json.dumps(tab, ensure_ascii=False) + "\n",
                                        "widths.ndjson": json.dumps(w, ensure_ascii=False) + "\n" + json.dumps(dict(
                                            v=ck.spec.cells.cell("\x16"), g=ck.spec.cells.cell("\x07"), m=ck.spec.cells.cell("\r")), ensure_ascii=False) + "\n"})
    ck.spec.add(stat)
    if len(vals) < 2000:
        raise Broken("only %d ways to read" % len(vals))
    cases, so = [], {}
    for v in vals:
        m, b = src[v["id"] - 1]
        sched = v["calls"]
        last = sched[-1]
        n = sum(x for x in sched[:-1]) + (-1 - last)
        c = dict(id=len(cases) + 1, mode=m, src=b, file="r.vim" if m == "file" else "")
        sizes = sched[:-1] + [-1 - last]
        # the end: alone after the last piece, or with it
        c["script"] = sizes
        c["failed"] = v["r"]["s"] == "unread"
        cases.append(c)
        so[c["id"]] = None if c["failed"] else ck.spec.outcome(dict(id=c["id"], r=v["r"], pos=v["pos"]))
    co = run_reads(cases)
    for c in cases:
        ck.validated += 1
        judge_read(ck, c, so[c["id"]], co.get(c["id"]))
    ck.cov["ways_to_read_enumerated_by_TLC"] = len(cases)
    # 2. larger inputs, long lines, handed out in random ways
    gen = []
    runs = [1, 2, 3, 100, 4094, 4095, 4096, 4097, 8191, 8192, 65534, 65535, 65536, 65537, 70000, 131072] + ([262144] if ck.deep else [])
    for n in runs:
        for pre, post in [("\"", ""), ("echo '", "'"), ("let x = '", "' = 1"), ("echo 1 | \"", "\necho 2"), ("echo '", ""), ("normal ", ""), ("echo 1\n\\ + 'x", "'\necho )"), ("set x=", "|x"),
                          ("echo 'é", "'\necho )"), ("let x =<< E\n", "\nE\n)"), ("append\n", "\n.\n)")]:
            gen.append(("file", False, pre + chr(0xF0000 + runs.index(n)) + post))
        for pre, post in [("'", "'"), ("\"é", "\""), ("'", ""), ("\"a\n\\b", "\" x"), ("a + '", "' )")]:
            gen.append(("expr", False, pre + chr(0xF0000 + runs.index(n)) + post))
    runs += [k for n in literals.news()[1] if 2 <= n <= 300000 for k in (n - 1, n, n + 1) if k not in runs]
    for n in (1 << 20, 1 << 22) + ((1 << 24) + 3,) * ck.deep:   # lines that nothing parses may be longer still
        runs.append(n)
        gen.append(("file", False, "finish\n" + chr(0xF0000 + runs.index(n)) + "\nendif"))
        gen.append(("file", False, "echo 1\nfinish\n" + chr(0xF0000 + runs.index(n))))
    ck.spec.cells.runs = {chr(0xF0000 + k): n for k, n in enumerate(runs)}
    n = 6000 if ck.deep else 2500
    for m, nv, s in list(cs.scripts(rng, n, 2, 0.3, wide=0.3)) + list(cs.exprs(rng, n // 2, 3, 0.3, wide=0.3)):
        r = rng.random()
        if r < 0.3:
            s = s.replace("\n", "\r\n")
        elif r < 0.4:
            s = "".join(rng.choice(["\r\n", "\n", "\n", "\r\r\n", "\r"]) if ch == "\n" else ch for ch in s)
        elif r < 0.5:
            s = s + rng.choice(["\r", "\n\r", "\r\n", "\n", "\n\n"])
        gen.append((m, nv, s))
    for bts in (b"\xff", b"\xc3", b"\xe3\x81", b"\xf0\x9f\x98", b"\x80\x80", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xfe\xff", b"\xef\xbb\xbf", b"\x00", b"\xc3\xa9", b"\xe2\x80\xa8", b"\xef\xbf\xbd", b"\xf3\xa0\x80\x81"):
        u = bts.decode("utf-8", "surrogateescape")
        for f in ("'%s'", "\"%s\"", "echo '%sa'", "\" %s", "let x%s = 1", "Foo %s", "%s", "echo x.%s", "function F(%s)\nendfunction", "let x =<< E\n%s\nE", "append\n%s\n.", "normal %s|x", "echo %s", "call f('%s', \"%s\")",
                  "try\ncatch /%s/\nendtry", "echohl %s", "set x=%s \" %s", "e ++enc=%s", "s/%s/x/", "{'%s': 1}", "loadkeymap\n%s a", "$%s", "@%s", "&%s", "1%s", "echo 1%s"):
            s = f.replace("%s", u)
            gen.append(("file", False, s))
            gen.append(("expr", False, s))
    cases = ck.prepare(gen)
    for c in cases:
        s = c["src"]
        c["file"] = "é.vim" if c["mode"] == "file" else ""
        c["crlf"] = "\r" in s
        total = len(core.to_bytes(ck.expand(s)))
        r = rng.random()
        if r < 0.25:
            c["chunks"] = [1]
        elif r < 0.6:
            c["chunks"] = [rng.choice([1, 2, 3, 5, 7, 16, 100, 4096]) for _ in range(rng.randint(1, 5))]
        elif r < 0.7:
            c["chunks"] = [rng.choice([0, 1, 3]) for _ in range(3)] + [1]
        elif r < 0.74:
            c["chunks"] = [3] + [0] * rng.choice([50, 99, 100, 101, 150, 300])
        c["eoftog"] = rng.random() < 0.4
        if total > 3000 and c.get("chunks") and (max(c["chunks"]) < 100 or len(c["chunks"]) > 40):
            c["chunks"] = [4096, 1, 511]
        if rng.random() < 0.2:
            c["fail"] = rng.randint(0, total)
        c["nocrlf"] = 1
    so = ck.outcomes(cases)
    drv = [dict(c, src=core.to_bytes(ck.expand(c["src"]))) for c in cases]
    co = core.run_driver(drv)
    for c in cases:
        ck.validated += 1
        s, g = so[c["id"]], co.get(c["id"])
        ck.note(c, s)
        c = dict(c, failed="fail" in c)
        judge_read(ck, c, None if c["failed"] else s, g)
    for c in cases[:4]:
        ck.sample(c, so[c["id"]])
    ck.library(READ, everything, vary="pieces")
    return ck.finish()


def judge_read(ck, c, s, g):
    what = None
    if g is None or "hang" in g:
        what = "no outcome"
    elif "panic" in g:
        what = "panic: " + g["panic"]
    elif c["failed"]:
        ck.cov["failing_reads"] += 1
        if "tree" in g:
            what = "the reader failed and a tree was returned"
        elif not g.get("err", {}).get("read"):
            what = "the reader failed with its own error, the parse returned %s" % core.short(g.get("err"))
    else:
        keep = everything if not c.get("crlf") else (lambda a: a not in ("pos", "errpos") and a not in POSITIONS)
        ds = [d for d in core.compare(s, g, c["file"]) if keep(d.aspect)]
        if c.get("crlf") and "err" in s and "err" in g and "line" in g["err"] and [g["err"]["line"], g["err"]["col"]] != s["err"]["pos"][:2]:
            ds.append(core.Diff("errpos", "", s["err"]["pos"], [g["err"]["line"], g["err"]["col"]]))
        if ds:
            what = "; ".join(map(str, ds[:3]))
    if what:
        q = dict(c, src=core.to_bytes(ck.expand(c["src"])) if isinstance(c["src"], str) else c["src"])
        ck.violation(what, ck.record(q, aspects=["read"]))


def run_reads(cases):
    """The schedules of the specification: sizes of the reads, the last with
    the end or the failure."""
    out = []
    for c in cases:
        q = dict(id=c["id"], mode=c["mode"], src=c["src"], file=c["file"], chunks=c["script"], exact=True, failed=c["failed"])
        out.append(q)
    return core.run_driver(out)


def expand(self, s):
    if not getattr(self.spec.cells, "runs", None) or isinstance(s, bytes):
        return s
    return "".join("x" * self.spec.cells.runs[ch] if ch in self.spec.cells.runs else ch for ch in s)


Check.expand = expand


CHECKS = {
    "C01": c01,
    "C02": c02,
    "C03": profile(cs.c03, shape),
    "C04": profile(c04, shape),
    "C05": profile(cs.c05, lambda a: a in POSITIONS or a in ("file", "panic", "hang", "verdict", "stmt", "expr", "missing")),
    "C06": profile(cs.c06, everything),
    "C07": profile(cs.c07, shape),
    "C08": profile(cs.c08, shape),
    "C09": profile(cs.c09, shape),
    "C10": profile(cs.c10, shape),
    "C11": profile(cs.c11, shape),
    "C12": profile(cs.c12, shape),
    "C13": c13,
    "C14": c14,
    "C15": c15,
    "C16": profile(cs.c16, errors_only),
    "C17": c17,
    "C18": c18,
    "C19": c19,
    "C20": c20,
    "C21": profile(cs.c21, shape),
}


def replay(path):
    rec = json.load(open(path))
    print(json.dumps({k: v for k, v in rec.items() if k not in ("history", "cases")}, indent=1))
    if "src" not in rec:
        return 0
    ck = Check(rec["property"], "quick", 1)
    c = dict(rec, id=1, src=rec["src"].encode("latin-1"))
    if "pump" in rec:
        p, n = rec["pump"]
        s = dict(pump.cases(ck.spec, [p], "")[0][1](n), id=1)
    else:
        s = ck.outcomes([c])[1]
    g = core.run_driver([c])[1]
    print("specification:", core.short({k: s[k] for k in s if k != "id"}, 3000))
    print("code:         ", core.short({k: g[k] for k in g if k != "id"}, 3000))
    for d in core.compare(s, g, rec.get("file", "") if rec["mode"] == "file" else ""):
        print(" ", d)
    return 0


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return CHECKS[prop](Check(prop, tier, seed))
    except Broken as e:
        log("ERROR: %s" % e)
        return 2
