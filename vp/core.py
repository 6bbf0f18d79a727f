"""Runs the specification (TLC) and the code (the Go driver) on the same cases
and compares what they say."""
import json, os, resource, shutil, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VP_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_scratch = None


def scratch():
    """A directory for this run, removed at the end."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vpcheck-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class Broken(Exception):
    """The check itself could not run: no verdict."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- the code

def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", LC_ALL="C.UTF-8")
    e.setdefault("GOGC", "400")
    e.pop("GOROOT", None)
    return e


def build_driver(race=False, repo=None):
    """Builds the driver against the working tree of the repository."""
    d = os.path.join(scratch(), ("driver-race" if race else "driver") + ("-other" if repo else ""))
    if os.path.isdir(d):
        return os.path.join(d, "driver")
    os.mkdir(d)
    for f in os.listdir(os.path.join(VERIF, "driver")):
        if f.endswith(".go"):
            shutil.copy(os.path.join(VERIF, "driver", f), d)
    mod = open(os.path.join(VERIF, "driver", "go.mod.in")).read().replace("/repo", repo or REPO)
    open(os.path.join(d, "go.mod"), "w").write(mod)
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", "driver"]
    # with a way to the go package's own compiler; without it if its functions have other names now
    ov = os.path.join(d, "overlay.json")
    shutil.copy(os.path.join(VERIF, "driver", "overlay.go.in"), os.path.join(d, "overlay.go.in"))
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(repo or REPO, "go", "zz_twin.go"): os.path.join(d, "overlay.go.in")}}, f)
    for more in (["-tags", "twin", "-overlay", ov], []):
        p = subprocess.run(cmd + more + ["."], cwd=d, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not p.returncode:
            break
    if p.returncode:
        raise Broken("the driver does not build:\n" + p.stdout.decode("utf-8", "replace")[-3000:])
    return os.path.join(d, "driver")


def lat(b):
    return b.decode("latin-1")


def to_bytes(s):
    """Source text (str, bytes that are not UTF-8 as surrogates) -> bytes."""
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")


def capped(gb):
    """For subprocess: no more memory than this."""
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def run_driver(cases, limit="40s", race=False, repo=None, deaths=None):
    """cases: list of dicts with id, src, mode ... -> {id: result}"""
    exe = build_driver(race, repo)
    deaths = [0] if deaths is None else deaths
    inp = []
    for c in cases:
        q = dict(id=c["id"], src=lat(to_bytes(c["src"])), mode=c.get("mode", "file"),
                 nvim=c.get("nvim", False), file=lat(to_bytes(c.get("file", ""))), ops=c.get("ops", []))
        for k in ("pol", "chunks", "eoftog", "fail", "wfail", "nilopt", "exact", "failed", "pre"):
            if k in c:
                q[k] = c[k]
        inp.append(json.dumps(q))
    if any(c.get("pre") for c in cases):
        from . import prefix
        inp.insert(0, prefix.line())
    p = subprocess.run([exe, "replay", limit], input="\n".join(inp).encode(), env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch(), preexec_fn=capped(12))
    res = {}
    for line in p.stdout.split(b"\n"):
        if line:
            r = json.loads(line)
            res[r["id"]] = r
    if p.returncode not in (0, 4):
        # the process died (stack overflow, fatal error): find the case
        missing = [c for c in cases if c["id"] not in res]
        if len(cases) == 1:
            deaths[0] += 1
            return {cases[0]["id"]: {"id": cases[0]["id"], "panic": "the process died: " +
                    p.stderr.decode("utf-8", "replace")[:300]}}
        for k in range(0, len(missing), max(1, len(missing) // 16)):
            part = missing[k:k + max(1, len(missing) // 16)]
            if deaths[0] < 4:      # enough to report
                res.update(run_driver(part, limit, race, repo, deaths))
            else:
                res.update({c["id"]: {"id": c["id"], "panic": "not run: the process died on others"} for c in part})
    return res


# ------------------------------------------------- characters and cells

class Cells:
    """One BMP character stands for each cell of the specification."""
    def __init__(self):
        self.enc = {}
        self.dec = {}
        self.width = {}
        self.runs = {}             # characters that stand for many: how many
        self.next = 0xE400

    def cell(self, ch):
        o = ord(ch)
        if 0x20 <= o < 0x7f or o == 9:
            return ch
        r = self.enc.get(ch)
        if r is None:
            b = ch.encode("utf-8", "surrogateescape")
            if ch in self.runs:
                b = b"x" * self.runs[ch]
            if 0xDC80 <= o <= 0xDCFF:
                r = chr(0xE000 + o - 0xDC00)
            elif o < 0x20 or o == 0x7f:
                r = chr(0xE100 + o)
            elif o > 0xFFFF or 0xE000 <= o <= 0xF8FF or 0x80 <= o < 0xA0 or o in (0x2028, 0x2029, 0xFEFF):
                r = chr(self.next)
                self.next += 1
                assert self.next < 0xF800
            else:
                r = ch
            self.enc[ch] = r
            self.dec[r] = lat(b)
            if len(b) != 1:
                self.width[r] = len(b)
        return r

    def encode(self, s):
        return "".join(map(self.cell, s))

    def decode(self, s):
        """cells -> bytes, as characters below 256"""
        if s.isascii():
            return s
        return "".join(c if c < "\x7f" else self.dec[c] for c in s)


def lines_of(src):
    """The physical lines of a source, as the documentation of the reader has
    it: a newline ends a line, a carriage return before it belongs to it."""
    ls = src.split("\n")
    if ls[-1] == "":
        ls.pop()
    return [l[:-1] if l.endswith("\r") else l for l in ls]


# ------------------------------------------------------------------- TLC

def run_tlc(module, files, workers=8, cfg=None, timeout=int(os.environ.get("TLCT","840")), xmx="8g", extra=(), refuted=None):
    """files: {name: text}.  Runs TLC on spec/<module>.tla and returns
    (lines printed by the specification as JSON values, statistics)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for n, t in files.items():
        with open(os.path.join(d, n), "w", encoding="utf-8") as f:
            f.write(t)
    shutil.copy(os.path.join(SPEC, module + ".tla"), d)
    shutil.copy(os.path.join(SPEC, cfg or module + ".cfg"), os.path.join(d, module + ".cfg"))
    cmd = ["java", "-Xss256m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
           "-Dsun.stdout.encoding=UTF-8", "-Dtlc2.tool.queue.DiskStateQueue.BufSize=400000",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
    t0 = time.time()
    with open(os.path.join(d, "out"), "wb") as out:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC took longer than %d s on %s" % (timeout, module))
    vals, rest = [], []
    with open(os.path.join(d, "out"), encoding="utf-8", errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                try:
                    vals.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            rest.append(line)
    stat = dict(states=0, transitions=0, wall=time.time() - t0)
    for l in rest:
        if "states generated" in l and "distinct states found" in l and "left on queue" in l and "Progress" not in l:
            w = l.replace(",", "").split()
            stat["transitions"], stat["states"] = int(w[0]), int(w[3])
    text = "".join(rest)
    if refuted:
        # an invariant the model must be able to break
        shutil.rmtree(d, True)
        return refuted + " is violated" in text, stat
    if p.returncode or "No error has been found" not in text:
        raise Broken("TLC on %s ended with %d:\n%s" % (module, p.returncode, text[-3000:]))
    shutil.rmtree(d, True)
    return vals, stat


class Spec:
    """What the specification says about cases."""
    def __init__(self):
        self.states = self.transitions = 0
        self.wall = 0.0
        self.cells = Cells()

    def add(self, stat):
        self.states += stat["states"]
        self.transitions += stat["transitions"]
        self.wall += stat["wall"]

    def parse(self, cases, module="MCParse", batch=15000, want=()):
        """{id: outcome} for cases (dicts with id, src, mode, nvim)."""
        out = {}
        for k in range(0, len(cases), batch):
            part = cases[k:k + batch]
            rows = []
            for c in part:
                src = c["src"]
                if isinstance(src, bytes):
                    src = src.decode("utf-8", "surrogateescape")
                row = dict(id=c["id"], m=c.get("mode", "file"), nvim=bool(c.get("nvim")),
                           want=[w for w in c.get("want", want)],
                           lines=[self.cells.encode(l) for l in lines_of(src)])
                row["pol"] = c.get("pol", [])
                rows.append(json.dumps(row, ensure_ascii=False))
            self.cells.encode("\x16\x07\r")
            w = dict(self.cells.width) or {}
            w["\u3042"] = 3
            files = {"cases.ndjson": "\n".join(rows) + "\n",
                     "widths.ndjson": json.dumps(w, ensure_ascii=False) + "\n" +
                     json.dumps(dict(v=self.cells.cell("\x16"), g=self.cells.cell("\x07"), m=self.cells.cell("\r")), ensure_ascii=False) + "\n"}
            vals, stat = run_tlc(module, files)
            self.add(stat)
            for v in vals:
                out[v["id"]] = self.outcome(v)
        return out

    def outcome(self, v):
        r, pos = v["r"], v["pos"]
        o = dict(id=v["id"])
        if r["s"] == "err":
            o["err"] = dict(msg=self.cells.decode(r["m"]), pos=pos[r["p"] - 1])
        else:
            o["tree"] = self.node(r["n"], pos)
        for k in ("sexp",):
            if k in v:
                o[k] = [self.cells.decode(x) for x in v[k]]
        if "walk" in v:
            o["walk"] = [e if len(e) == 1 else [e[0], e[1], pos[e[2] - 1]] for e in v["walk"]]
        return o

    def node(self, n, pos):
        k = n["k"]
        if k == "nil":
            return None
        p = [0, 0, 0] if n["p"] == 0 else pos[n["p"] - 1]
        s = [self.cells.decode(x) for x in n["s"]]
        if k in ("lockvar", "unlockvar"):
            s = [norm_num(s[0])]
        r = [k, p, s, [self.node(c, pos) for c in n["c"]]]
        if "ea" in n:
            r.append(self.ea(n["ea"], pos))
        return r

    def ea(self, e, pos):
        at = lambda i: None if i == 0 else pos[i - 1]
        d = self.cells.decode
        m = dict(lp=at(e["lp"]), cp=at(e["cp"]), ap=at(e["ap"]), force=e["force"], amount=e["amount"],
                 append=e["append"], filter=e["filter"], bin=e["bin"], edit=e["edit"], ff=d(e["ff"]), enc=d(e["enc"]),
                 bad=d(e["bad"]), ecmd=d(e["ecmd"]), range=[d(x) for x in e["range"]],
                 mods=[norm_mod(x) for x in e["mods"]])
        m["cmd"] = None if e["cmd"] == "" else [d(e["cmd"]), e["minlen"], e["flags"]]
        return m


def norm_num(s):
    return str(min(int(s), 2 ** 63 - 1))


def norm_mod(m):
    m = dict(m)
    if "count" in m:
        m["count"] = int(norm_num(m["count"]))
    return m


def code_ea(e):
    """The driver's description of a command, in the terms of the specification."""
    if e is None:
        return None
    e = dict(e)
    if e["cmd"] is not None:
        e["cmd"] = e["cmd"][:3]
    e["mods"] = e["mods"] or []
    e["range"] = e["range"] or []
    return e


# ------------------------------------------------------------- comparison

class Diff:
    def __init__(self, aspect, path, want, got):
        self.aspect, self.path, self.want, self.got = aspect, path, want, got

    def __str__(self):
        return "%s at %s: specification %s, code %s" % (self.aspect, self.path or "/", short(self.want), short(self.got))


def short(x, n=300):
    s = json.dumps(x, ensure_ascii=False, default=str)
    return s if len(s) <= n else s[:n] + "..."


STMT = {"file", "comment", "excmd", "function", "endfunction", "delfunction", "return", "excall", "let", "unlet",
        "lockvar", "unlockvar", "if", "elseif", "else", "endif", "while", "endwhile", "for", "endfor", "continue",
        "break", "try", "catch", "finally", "endtry", "throw", "eval", "echocmd", "echohl", "execute", "seq"}


def tree_diff(a, b, path, out):
    """a: specification, b: code.
    Aspects: missing (a part that must be there is nil), stmt (statements
    differ), expr (expressions differ), text:<kind> (strings), pos, ea.<field>"""
    if a is None and b is None:
        return
    if b is None:
        out.append(Diff("missing", path, a[0], None))
        out.append(Diff("stmt" if a[0] in STMT else "expr", path, a[:3], None))
        return
    if a is None:
        out.append(Diff("stmt" if b[0] in STMT else "expr", path, None, b[:3]))
        return
    if a[0] != b[0]:
        out.append(Diff("stmt" if a[0] in STMT or b[0] in STMT else "expr", path, a[:3], b[:3]))
        return
    k = a[0]
    path = path + "/" + k
    if a[2] != b[2]:
        out.append(Diff("text:" + k, path, a[2], b[2]))
    if k != "seq" and a[1] != b[1]:
        out.append(Diff("pos", path, a[1], b[1]))
    if len(a) > 4 or len(b) > 4:
        ea, eb = (a[4] if len(a) > 4 else None), code_ea(b[4] if len(b) > 4 else None)
        if ea is None or eb is None:
            out.append(Diff("ea.cmd", path, ea, eb))
        else:
            for f in ea:
                if ea[f] != eb.get(f):
                    out.append(Diff("ea." + f, path, ea[f], eb.get(f)))
    if len(a[3]) != len(b[3]):
        kinds = [c[0] for c in a[3] + b[3] if c]
        out.append(Diff("stmt" if any(x in STMT for x in kinds) else "expr", path,
                        [c and c[:3] for c in a[3]], [c and c[:3] for c in b[3]]))
        for i, (x, y) in enumerate(zip(a[3], b[3])):
            tree_diff(x, y, "%s[%d]" % (path, i), out)
        return
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        tree_diff(x, y, "%s[%d]" % (path, i), out)


ERRTYPE = "*vimlparser.ErrVimlParser"


def compare(spec, code, file=""):
    """All differences between an outcome of the specification and one of the
    code.  Aspects, besides those of tree_diff: panic, hang, both, none,
    internal (an error that is no parse error), verdict, errmsg, errpos,
    errfile, errtext, file."""
    out = []
    file = lat(to_bytes(file))
    if code is None:
        return [Diff("hang", "", "an outcome", "none")]
    if code.get("hang"):
        return [Diff("hang", "", "an outcome", "none in time")]
    if "panic" in code:
        return [Diff("panic", "", "an outcome", code["panic"])]
    if code.get("both"):
        out.append(Diff("both", "", "a tree or an error", "both"))
    if "err" not in code and "tree" not in code:
        return out + [Diff("none", "", "a tree or an error", "neither")]
    if "err" in code and code["err"]["type"] != ERRTYPE:
        out.append(Diff("internal", "", spec.get("err", "a tree"), code["err"]["text"]))
    if "err" in spec:
        if "err" not in code:
            out.append(Diff("verdict", "", spec["err"], "accepted"))
            return out
        e = code["err"]
        if e["type"] == ERRTYPE:
            if e["msg"] != spec["err"]["msg"]:
                out.append(Diff("errmsg", "", spec["err"]["msg"], e["msg"]))
            if [e["line"], e["col"], e["off"]] != spec["err"]["pos"]:
                out.append(Diff("errpos", "", spec["err"]["pos"], [e["line"], e["col"], e["off"]]))
            if e["file"] != file:
                out.append(Diff("errfile", "", file, e["file"]))
        l, c, _ = spec["err"]["pos"]
        t = "%s:%d:%d: vimlparser: %s" % (file, l, c, spec["err"]["msg"]) if file else \
            "vimlparser: %s: line %d col %d" % (spec["err"]["msg"], l, c)
        if e["text"] != t:
            out.append(Diff("errtext", "", t, e["text"]))
        return out
    if "tree" not in code:
        out.append(Diff("verdict", "", "accepted", code["err"].get("text")))
        return out
    tree_diff(spec["tree"], code["tree"], "", out)
    if "badfile" in code:
        out.append(Diff("file", "", file, code["badfile"]))
    return out
