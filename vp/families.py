"""The families of cases of the library: name -> generator of one shard.
gen(rng, k) yields (mode, nvim, source[, more]); every choice comes from rng,
so a shard is the same on every run."""
import itertools, random
from . import cases as cs
from .gen import G, BINOPS, NUMS, BLOBS, STRS, NAMES, OPTS, ENVS, REGS

X, F = "expr", "file"
FAMILIES = {}


class Family:
    def __init__(self, name, gen, shards, op):
        self.name, self.gen, self.shards, self.op = name, gen, shards, op


def family(name, shards=1, op=""):
    def add(f):
        FAMILIES[name] = Family(name, f, shards, op)
        return f
    return add


def deep(name, f):
    FAMILIES[name] = Family(name, lambda rng, k: f(rng, True, files=False), 1, "")


for _n in ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c16", "c21"):
    deep(_n, getattr(cs, _n))


# ------------------------------------------------------------------ pieces

WSP = ["", "", "", " ", " ", "  ", "\t"]


def sep_list(g, items, seps, opens, closes):
    """Items between separators that are mostly right."""
    r = g.r
    s = opens + r.choice(WSP)
    for k, it in enumerate(items):
        s += it
        if k < len(items) - 1:
            s += r.choice(seps)
    return s + r.choice(["", "", "", ",", ", ", " ,", ",,", ", ,", " ", ";", ":"]) + closes


SEPS = [","] * 8 + [", "] * 8 + [" ,", " , ", ",\t", ",,", ", ,", ",, ", "", " ", ";", ":"]
ITEMS = ["1", "2", "a", "b", "'s'", '"t"', "x.y", "f()", "[]", "{}", "-1", "a + b", "a:b", "(c)", "...", "a->b()", "{x -> x}", "#{k: 1}",
         "&o", "@a", "$E", "0z00", "a[1]", "a[1:2]", "a ? b : c", "é", "x{y}z"]
KEYCH = list("abzAZ019_--__")


def key(r):
    return "".join(r.choice(KEYCH) for _ in range(r.randint(1, 4)))


DQ = ["a", "b", " ", "\\<", "\\<CR>", "\\<C-", ">", "<", "\\\"", "\\\\", "\\n", "\\x41", "\\u3042", "\\101", "'", "|", "é", "あ", "#", "{", "\\", "\t", "\\é", "\udcff"]
SQ = ["a", "b", " ", "''", "\\", '"', "|", "é", "あ", "#", "{", "\t", "\\'", "\\n", "\udcff"]


def dstring(r, n=6):
    return '"' + "".join(r.choice(DQ) for _ in range(r.randint(0, n))) + r.choice(['"', '"', '"', '"', '"', "", '""', '\\"'])


def sstring(r, n=6):
    return "'" + "".join(r.choice(SQ) for _ in range(r.randint(0, n))) + r.choice(["'", "'", "'", "'", "'", "", "''", "\\'"])


NUMCH = list("0012789xXbBzZoeE..-+aFf_:")


def number(r):
    k = r.randrange(6)
    if k == 0:
        return "".join(r.choice(NUMCH) for _ in range(r.randint(1, 7)))
    if k == 1:
        return r.choice(["0x", "0X", "0b", "0B", "0z", "0Z", "0o", "0"]) + "".join(r.choice("0123456789abcdefABCDEFgG.xz") for _ in range(r.randint(0, 7)))
    if k == 2:
        return "".join(r.choice("0123456789") for _ in range(r.randint(1, 12)))
    if k == 3:
        return "%d.%s%s" % (r.randrange(100), r.choice(["", "0", "5", "25", "x", "e", "."]), r.choice(["", "e1", "E10", "e+5", "e-5", "E-", "e", "e+", ".1", "e1.5", "e5e5"]))
    if k == 4:
        return r.choice(NUMS + BLOBS)
    return r.choice(["1", "12", "0", "00", "1.5"]) + r.choice([".", "..", "e", "x", "_", "a", "[0]", "(1)", "{2}", "->f()", ".x", ". x", " . 1", ".1", ".1.1"])


def lit(r):
    k = r.randrange(12)
    if k < 2:
        return number(r)
    if k < 4:
        return dstring(r, 4)
    if k < 6:
        return sstring(r, 4)
    return r.choice(ITEMS)


def curlyname(r, g):
    """Curly names: names and braces in turn, and what may come after."""
    s = ""
    for _ in range(r.randint(1, 5)):
        s += r.choice(["a", "b_", "s:", "x1", "g:y#", "B", "1", "#", ":", "é"]) if r.random() < 0.5 else "{" + r.choice(WSP) + r.choice(["a", "1", "'s'", "a.b", "x + y", "f(1)", "a, b", "", "a -> b", "a: b", "{b}", "[1]"]) + r.choice(WSP) + "}"
    return s


POST = ["[1]", "[a:b]", "[:]", "[1:]", "[:2]", "[ 1 ]", "[-1]", "[1 : 2]", "[a : b]", "[s:x]", "[a:b : c:d]", "[]", ".x", ".1", ".x1", "._a", ".0x1", ". x", " .x", " . x", "..x", ".é", ".a#b", ".s:x", ".{a}", ".a{b}",
        "()", "(1)", "(1, a)", "( 1 , 2 )", "(1,)", "(,)", "(1 2)", " (1)", "\t(1)", "->m()", "->m(1, 2)", "->s:m()", "->a#b()", "->m", "->{x -> x}()", "->{x}()", "->(m)()", "-> m()", " ->m()", " -> m()", "- >m()",
        "->m ()", "->\tm()", "->m{x}()", "->1()", "->a.b()", "->g:m()", "[1][2]", "(1)(2)", "{x}", "[\"k\"]", "['k'].v", "[#{a: 1}]", "[{a -> b}]"]
BASE = ["x", "a", "s:x", "g:", "(x)", "[1]", "{'a': 1}", "#{a: 1}", "'s'", '"s"', "1", "1.5", "0xF", "0z00", "&o", "@a", "$E", "x{y}", "{y}", "{a -> a}", "f()", "a#b", "self", "v:true", "<SID>x", "<sid>x", "é", "_", "-x", "!x", "x1", "a:1", "a:0", "a:000"]


# --------------------------------------------------------------- families

@family("tok", 6)
def tok(rng, k):
    """Long token sequences, one grammar area at a time."""
    g = G(rng, wide=0.1, odd=0.1)
    r = rng
    for _ in range(15000):
        a = r.randrange(12)
        if a == 0:
            s = sep_list(g, [lit(r) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12]))], SEPS, "[", r.choice(["]"] * 8 + ["", ")", "]]"]))
        elif a == 1:
            op, cl = r.choice([("{", "}"), ("#{", "}")])
            ks = []
            for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
                kk = key(r) if op == "#{" and r.random() < 0.9 else r.choice(["'a'", '"b"', "a", "1", "x.y", "a:b", "(c)", "[1]", "-", "", "é"])
                ks.append(r.choice(WSP) + kk + r.choice([":"] * 8 + [": "] * 4 + [" :", " : ", "", "::", "="]) + r.choice(WSP) + lit(r) + r.choice(WSP))
            s = sep_list(g, ks, SEPS, op, r.choice([cl] * 8 + ["", "]", "}}"]))
        elif a == 2:
            s = sep_list(g, [lit(r) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 20, 21, 22]))], SEPS, r.choice(["f(", "a.b(", "x->f(", "(g)(", "f (", "x{y}("]), r.choice([")"] * 8 + ["", "]", "))"]))
        elif a == 3:
            s = dstring(r, 9)
        elif a == 4:
            s = sstring(r, 9)
        elif a == 5:
            s = number(r)
        elif a == 6:
            s = curlyname(r, g) + "".join(r.choice(POST) for _ in range(r.choice([0, 0, 1, 2])))
        elif a == 7:
            s = r.choice(BASE) + "".join(r.choice(POST) for _ in range(r.randint(1, 4)))
        elif a == 8:
            ps = [r.choice(["a", "b", "x", "_", "a1", "é", "a:b", "1", "...", "s:x", "a b", "a = 1", "..."]) for _ in range(r.choice([0, 1, 2, 3, 4]))]
            s = "{" + r.choice(WSP) + "".join(p + r.choice([",", ", ", " ,", ", ", ",,", " "] if j < len(ps) - 1 else ["", "", " ", ","]) for j, p in enumerate(ps)) + \
                r.choice(["->", "->", "->", " -> ", "-> ", "- >", "=>", ""]) + r.choice(WSP) + lit(r) + r.choice(WSP) + r.choice(["}", "}", "}", "}", "", "}}"]) + r.choice(["", "", "(1)", "(a, b)", ".x", "[1]"])
        elif a == 9:
            s = tern(r, r.randint(1, 4))
        elif a == 10:
            s = ops(r, r.randint(2, 8))
        else:
            s = g.expr(r.choice([2, 3, 4]))
        w = r.randrange(10)
        if w < 5:
            yield X, False, s
        elif w == 5:
            yield F, False, "echo " + s
        elif w == 6:
            yield F, False, "let x = " + s
        elif w == 7:
            yield F, False, "if " + s + "\nendif"
        elif w == 8:
            yield F, False, r.choice(["call f(" + s + ")", "let x[" + s + "] = 1", "eval " + s, "echo [" + s + "] \"c", "exe 'a' " + s + "|x"])
        else:
            yield X, False, r.choice(["[%s]", "f(%s)", "(%s)", "{'k': %s}", "x[%s]", "{-> %s}", "!%s", "a ? %s : b", "x[%s:]", "x[:%s]", "a . %s", "-%s", "x->f(%s)", "#{k: %s}", "a{%s}b"]) .replace("%s", s)


def operand(r):
    return r.choice(["a", "b", "c", "1", "2", "'s'", "(d)", "x[1]", "f(2)", "y.z", "s:v", "-e", "!g", "+h", "k->g()", "0x1", "1.5", "isx", "notx", "@r", "&o"])


def ops(r, n, tops=BINOPS):
    s = operand(r)
    for _ in range(n):
        op = r.choice(tops)
        b = r.choice(["", "", " ", " ", " ", "  ", "\t"])
        if op[0].isalpha():
            b = b or " "
        s += b + op + (b if r.random() < 0.9 else r.choice(["", " "])) + r.choice(["", "", "", "", "", "-", "!", "+", "!-", "- "]) + operand(r)
    return s


def tern(r, n):
    if n <= 0:
        return ops(r, r.choice([0, 0, 0, 1, 2]), ["||", "&&", "==", "+", ".", "*", "is", ">", "<=", "=~", "..", "-"])
    k = r.randrange(n)
    q = r.choice([" ? ", "?", " ?", "? ", "\t?\t"])
    c = r.choice([" : ", ":", " :", ": ", "\t:\t"])
    cond = tern(r, 0) if r.random() < 0.8 else "(" + tern(r, n - 1 - k) + ")"
    s = cond + q + tern(r, k) + c + tern(r, n - 1 - k)
    if r.random() < 0.05:
        s = s.replace(":", "", 1)
    return s


def corpus():
    """Valid texts of every construct, small enough to change in every place."""
    from .checks import BASEX
    xs = [(X, s) for s in BASEX]
    fs = [(F, s) for s in cs.FIELDPOS] + [(F, t) for t in cs.TRUNC]
    return xs + fs


JUNK = list("()[]{}<>|&=!~?:,;.+-*/%'\"\\`#@$^_ \t\n\r") + ["0", "1", "a", "e", "s", "x", "E", "é", "あ", "\udcff", "\x00", "\x16", "\x07", "->", "..", "||", "==", "0x", "#{", "''", "\\\"", "\n\\", "\n\"\\ ", " | ", "++", "<<", "is", "😀", "\x80"]


@family("mut", 4)
def mut(rng, k):
    """Every single edit of every construct: each place, each piece of junk put
    in, put instead, or nothing there; the shards share them out."""
    n = 0
    for m, s in corpus():
        for i in range(len(s) + 1):
            for op in range(2):
                for j in JUNK:
                    if op == 1 and i == len(s):
                        continue
                    n += 1
                    if n % 4 == k and (len(s) < 90 or n % 3 == 0 or n % 16 == k):
                        yield m, n % 5 == 0 and m == F, s[:i] + j + s[i + op:]
            for w in (1, 2, 3):
                if i + w <= len(s):
                    n += 1
                    if n % 4 == k:
                        yield m, False, s[:i] + s[i + w:]


@family("mut2", 4)
def mut2(rng, k):
    """Two or three edits of a construct, or of two put together."""
    xs = corpus()
    for _ in range(15000):
        m, s = rng.choice(xs)
        if rng.random() < 0.3:
            m2, t = rng.choice(xs)
            if m == m2 == X:
                s = rng.choice(["%s + %s", "%s ? %s : a", "[%s, %s]", "f(%s, %s)", "{%s: %s}", "%s[%s]", "%s . %s", "%s%s", "%s %s", "%s == %s", "(%s)(%s)", "%s->f(%s)"]).replace("%s", s, 1).replace("%s", t, 1)
            elif m == F and m2 == F:
                s = s + rng.choice(["\n", "\n", "|", " | ", "\n\n", "\r\n"]) + t
            elif m == F:
                s = s.replace("x", t, 1)
        for _ in range(rng.choice([0, 1, 2, 2, 3])):
            i = rng.randrange(len(s) + 1)
            op = rng.randrange(5)
            if op == 0:
                s = s[:i] + rng.choice(JUNK) + s[i:]
            elif op == 1:
                s = s[:i] + rng.choice(JUNK) + s[i + 1:]
            elif op == 2:
                s = s[:i] + s[i + rng.randint(1, 5):]
            elif op == 3:
                j = min(len(s), i + rng.randint(1, 12))
                p = rng.randrange(len(s) + 1)
                s = s[:p] + s[i:j] + s[p:]
            else:
                s = cs.fold(rng, s, 0.05) if m == F else cs.widen(rng, s)
        yield m, rng.random() < 0.2, s


CONTEXTS = ["%s", "a%s", "%sa", "a %s", "a%sb", "a %s b", "[%s]", "{%s}", "f(%s)", "x.%s", "x[%s]", "x->%s", "'%s'", '"%s"', '"\\%s"', "#{%s: 1}", "0x%s", "0z%s", "1%s", "1.%s", "&%s", "@%s", "$%s", "x{%s}", "{a%s -> 1}", "a:%s", "s:%s",
            "x[1%s", "x == %s", "a ==%s b", "!%s", "a ?%s b : c"]
FCONTEXTS = ["%s", "%sfoo", "echo %s", "echo a%s", "echo a %s b", "let %s = 1", "let x%s = 1", "let x %s= 1", "let x = 1%s", "let x =<< %s\na\n%s", "let x =<< E%s\nE", "if 1%s\nendif", "if%s 1\nendif", "endif%s", "function F%s()\nendfunction", "function %s()\nendfunction",
             "function F(%s)\nendfunction", "function F()%s\nendfunction", "function F() abort%s\nendfunction", "function F()\nendfunction%s", "function%s F()\nendfunction", "%s/x/", "/x%s/", "1%s", "1,%s", "'%s", "\\%s", ":%s", "silent%s echo 1", "3%sverbose x",
             "w%s", "w %s", "w ++%s", "w ++ff=%s x", "w ++%s=dos x", "e +%s x", "e +a%sb x", "r%s", "r %s", "r !%s", "s%sa%sb%s", "g%sx%sd", "k%s", "k %s", "@%s", "d%s", "%s!", "Foo%s", "Foo %s", "Foo a%s|b", "normal %s", "normal a%s|b", "e `=%s`", "e `%s`", "vimgrep %sa%s x",
             "vimgrep /a/%s x", "vimgrep a%sb x|y", "redir %s", "redir @%s", "redir @a%s", "redir!%s", "wincmd %s", "wincmd g%s", "wincmd w%s", "syntax %s", "syntax match%s x", "sy match x %sa%s b|c", "sy region x start=%s|%s end=/|/", "catch %s", "catch /%s/", "catch /x/%s", "catch %sx%s",
             "call f()%s", "call %s()", "call%s f()", "unlet %s", "unlet x%s", "unlet!%s x", "lockvar %s x", "lockvar 1%s x", "for x%s in y\nendfor", "for %s in y\nendfor", "for x in%s y\nendfor", "for [a%s] in y\nendfor", "echohl %s", "echohl a%s|x", "execute 'a'%s", "throw 'a'%s", "return%s", "delfunction %s",
             "delfunction F%s", "finish%s", "finish%sx\nendif", "append%s\n.\n", "append\n%s\n.\n", "append\n.%s\n", "lua%s\n.\n", "lua <<%s\n%s\n", "lua << E%s\nE\n", "lua << E\nE%s\n", "lua %s", "loadkeymap%s\nx", "map %s x", "map x %s", "map x a%s|b", "autocmd x %s | y", "command! X %s | y", "set %s", "set x=%s|y", "set x=a%sb|y",
             "\"%s", "echo 1 \"%s", "a\n\\%s", "a\n%s\\b", "a%s\n\\b", "echo 1|%s", "echo 1|%secho 2", "eval %s", "const %s = 1", "const x %s 1", "let [a%s] = b", "let [a, b%s] = c", "let [a; %s] = c", "let x.%s = 1", "let x[%s] = 1", "let {%s} = 1", "py3 %s", "help %s|x", "sign %s|x",
             "scriptencoding %s", "ru %s|x", "argdo %s|x", "silent!%sx", "tab%s x", "vert%s x", "silen%st x", "echo %s | echo 1"]


def singles():
    out = [chr(c) for c in range(0, 128)]
    out += [bytes([b]).decode("utf-8", "surrogateescape") for b in (0x80, 0xa0, 0xbf, 0xc0, 0xc3, 0xe3, 0xf0, 0xff)]
    out += ["é", "あ", "😀", "\u00a0", "\u3000", "\u2028", "\ufeff", "\u0300", "ｱ", "１", "\u0085"]
    return out


@family("chars", 2)
def chars(rng, k):
    """Each character in each place."""
    n = 0
    for c in singles():
        for t in CONTEXTS:
            n += 1
            if n % 2 == k:
                yield X, False, t.replace("%s", c)
        for t in FCONTEXTS:
            n += 1
            if n % 2 == k:
                yield F, n % 7 == 0, t.replace("%s", c)


PAIRS = ["|", '"', "'", "\\", "`", "/", "!", ">", "<", "=", "+", "*", "#", "%", "@", "&", "~", "^", "$", ",", ";", ":", ".", "?", "-", "(", ")", "[", "]", "{", "}", " ", "\t", "\n", "1", "a", "g", "x", "é", "\x16", "\\|", "\\/", "``", "++", "`=", "'a'", '"a"', " | ", " \"", "a b"]


@family("pairs", 4)
def pairs(rng, k):
    """Two or three characters in each place."""
    n = 0
    for t in FCONTEXTS:
        for p in PAIRS:
            for q in PAIRS:
                n += 1
                if n % 12 == k:
                    yield F, n % 7 == 0, t.replace("%s", p + q)
        for _ in range(25):
            yield F, rng.random() < 0.2, t.replace("%s", "".join(rng.choice(PAIRS) for _ in range(rng.randint(3, 5))))
            yield F, rng.random() < 0.2, "".join(x if x != "%" else rng.choice(PAIRS) + rng.choice(PAIRS) for x in t.replace("%s", "%"))
    for t in CONTEXTS:
        for _ in range(60):
            yield X, False, t.replace("%s", "".join(rng.choice(PAIRS) for _ in range(rng.randint(2, 4))))


def abbr(r, n, m):
    """A shorter or the whole name, sometimes too short or too long."""
    if r.random() < 0.06:
        return n[:max(1, m - 1)]
    if r.random() < 0.03:
        return n + r.choice(["x", "s", "1", "#", "_"])
    return n[:r.randint(m, len(n))] if r.random() < 0.6 else n


ARGPIECES = ["a", "b", " ", " ", "  ", "|", " | ", "\\|", '"', ' "', "\\\"", "`", "``", "`=1`", "`=x.'|'`", "`=", "\x16|", "\x16", "<", ">", ">>", "!", "#", "%", "++ff=dos ", "++enc=x ", "++bad=keep ", "++bin ", "++nobin ", "++edit ", "++p", "++ff ", "+", "+10 ", "+/x ", "+/a\\ b ",
             "/", "/a/", "//", "?x?", "j", "g", "é", "あ", "@", "@a", "@\"", "@a>", "@a>>", "=>", "=", "$", "x=1", "'", "'a'", "\\", "\\\\", "\n", "\t", "{", "}", "(", ")", "f()", "x.vim", "*", "1", "12", "<CR>", "<Bar>", "<C-V>", "\udcff", ":", "::", "&", "~", "^", "."]


@family("cmdargs", 6)
def cmdargs(rng, k):
    """Every command, abbreviated in every way, with ranges, modifiers, bangs
    and arguments."""
    r = rng
    g = G(rng)
    tab = cs.table()
    for rep in range(25):
        for n, m, q, fl, nv in tab:
            s = abbr(r, n, m)
            if r.random() < 0.25:
                s = r.choice([g.range(), "1,2", "%", "1", ".,$", "'a,'b", "/x/", "*", "5;7", ",", ";", " 1 , 2 "]) + r.choice(["", "", " "]) + s
            if r.random() < 0.15:
                s = g.mods() + s
            if r.random() < 0.2:
                s = r.choice([":", " ", "::", " : ", "\t"]) + s
            if r.random() < 0.3:
                s += "!"
            a = "".join(r.choice(ARGPIECES) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6])))
            s += r.choice([" ", " ", " ", "", "  ", "\t"]) + a
            s += r.choice(["", "", "", "|x", " | echo 1", "\"c", " \" c", "\necho 2", "\n\\ y", "|", " "])
            yield F, (rng.random() < 0.2) if not nv else (rng.random() < 0.8), s


@family("mods", 2)
def mods(rng, k):
    """Modifiers and ranges."""
    r = rng
    g = G(rng)
    cmds = ["echo 1", "w", "s/a/b/", "x", "Foo", "3", "", "\"c", "call f()", "if 1\nendif", "e x", "normal x", "k", "ka", "d", "dl", "let x = 1", "!ls", "@a", "=", "function F()\nendfunction", "vimgrep /x/ y", "3split", "help", "tab", "sil", "vert", "é"]
    for _ in range(20000):
        s = ""
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            n, m = r.choice(g.MODS)
            t = abbr(r, n, m)
            if r.random() < (0.5 if n in ("tab", "verbose") else 0.08):
                t = r.choice(["0", "1", "3", "15", "007", "2 ", "99999999999999999999", "-1", "1,2", "$", ".", "%", "4 5 "]) + t
            if r.random() < (0.5 if n == "silent" else 0.05):
                t += r.choice(["!", "!", "!!", " !"])
            s += r.choice(["", "", "", ":", " ", "\t", ": "]) + t + r.choice([" ", " ", " ", " ", "\t", "  ", "", ":", " :", "|", "1", "-", "\n"])
        if r.random() < 0.6:
            s += addrs(r)
        yield F, r.random() < 0.2, s + r.choice(["", "", " ", ":"]) + r.choice(cmds)


def addrs(r):
    s = ""
    for k in range(r.choice([1, 1, 2, 2, 3, 4])):
        a = r.choice(["1", "10", "007", ".", "$", "%", "*", "'a", "'A", "'<", "'>", "'[", "''", "'é", "'", "/x/", "/a\\/b/", "/[/]/", "/x", "//", "/", "/\\\\/", "/é/", "?y?", "?a\\?b?", "?[?]?", "?", "??", "\\/", "\\?", "\\&", "\\", "\\x", "", "+", "-", "&"])
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            a += r.choice(["+", "-", "+1", "-2", "+10", " + 1", "+ 2", "--", "++", "5", " 5", "/z/", "?w?", "//", " /q/", "\\/", "+x", "-é", "1.", ".", "$"])
        s += r.choice(["", "", "", " ", "\t"]) + a + r.choice(["", "", "", " "])
        s += r.choice([",", ",", ",", ";", ";", ",,", ", ", " ,", ""]) if k or r.random() < 0.8 else ""
    return s if r.random() < 0.7 else s.rstrip(",;")


MARKERS = ["E", "END", "EOF", "X1", "_e", "e", "!", "'E'", '"E', '"E"', "E|x", "E\"c", "E \"c", "E x", "é", "あ1", "1", ".", "..", "E.", "trim", "eval", "trim E", "eval E", "trim eval E", "eval trim E", "trimE", "evalE", " E", "\tE", "E ", "E\t", "", "\\", "\\E", "|", "| E", "#", "<<E", "trim\tE", "trim  E", "Trim E", "e E", "E#", "-E", "a:b"]
VHEADS = ["append", "a", "ap", "a!", "1a", "insert", "i", "i!", "$insert", "change", "c", "c!", "1,2c", "lua", "python", "py", "py3", "python3", "pyx", "pythonx", "ruby", "rub", "perl", "pe", "tcl", "tc", "mzscheme", "mz", "luado", "pydo", "loadkeymap", "lo", "loadk",
          "let x", "let s:x.y", "let [a, b]", "let x[1]", "const x", "let {x}y", "let &o", "let a:1", "var x", "silent lua", "silent! append", ":py", "  ruby", "1,2python", "final x", "scriptencoding", "let x y"]


@family("verb", 4)
def verb(rng, k):
    """Text taken word for word: what begins it, how it ends, and what is in it."""
    r = rng
    for _ in range(15000):
        h = r.choice(VHEADS)
        m = r.choice(MARKERS)
        core_m = m.split(" ")[-1] if r.random() < 0.8 else m
        core_m = {"E|x": "E", "E\"c": "E"}.get(core_m, core_m) if r.random() < 0.3 else core_m
        if h.startswith(("let", "const", "var", "final")):
            s = h + r.choice([" =<< ", " =<< ", "=<<", "=<< ", " =<<", " = << ", " =<<<", " =<<  ", " +=<< ", " .=<< ", " =<<\t"]) + m
        elif h.strip(":! 0123456789,").startswith(("a", "i", "c", "lo")) and r.random() < 0.9:
            s = h + r.choice(["", "", "", " ", "\"c", " x", "|x", "!", "\t"])
            core_m = "."
        else:
            s = h + r.choice([" <<", " << ", "<<", "<< ", " <<", " <<  ", " < <", " <<<", " x <<", " "]) + m
            if not m:
                core_m = "."
        s += r.choice([""] * 6 + [" ", "\t", " \"c", "|x", "\r"])
        body = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
            body.append(r.choice(["text", "", " ", ".", "..", ". ", " .", "\t.", ".x", "x.", core_m + " ", " " + core_m, "\t" + core_m, core_m + "x", "x" + core_m, core_m[:-1], core_m + core_m, core_m.lower(), core_m.upper(), core_m + "\r", core_m + '"', "endif", "endfunction", "  x | y", '" c', "\\ x", "  \\x", "let =", "'",
                                   "é", "if 1", "\"\\ c", "function F()", ":" + core_m, core_m + "|", "  " + core_m + "  "]))
        if h.strip(":! 0123456789,$").startswith(("let", "const")) and "trim" in m and r.random() < 0.7:
            ind = r.choice(["", " ", "  ", "\t", " \t", "    "])
            s = ind + s
            body = [r.choice([ind, ind, ind + " ", " ", "", ind + "\t", "\t"]) + b for b in body]
            end = r.choice([ind, ind, ind, "", " ", ind + " "]) + core_m
        else:
            end = core_m
        e = r.random()
        ls = [s] + body + ([end] if e < 0.85 else [] if e < 0.95 else [end + r.choice([" ", "x", "|", "\t"])])
        if r.random() < 0.5:
            ls += [r.choice(["echo 1", "endif", "x", "", "\\ y", "let y = 1", '"c'])]
        if r.random() < 0.2:
            ls = [r.choice(["if 1", "function F()", "try", "while 1", "echo 1", ""])] + ls + [r.choice(["endif", "endfunction", "endtry", "endwhile", ""])]
        yield F, r.random() < 0.15, "\n".join(ls) + r.choice(["\n", "", "\n", "\r\n"])


@family("blocks", 4)
def blocks(rng, k):
    """Blocks with many clauses, deep nests, and stray lines in them."""
    r = rng
    FILL = ["", "", "", "echo 1", '" c', "let x = 1", "call f()", "Foo", "  x", "append\nelse\n.", "let y =<< E\nendif\nE", "return", "break", "continue", "finish", "echo 1 | echo 2"]

    def fill():
        return [x for x in [r.choice(FILL) for _ in range(r.choice([0, 0, 1, 1, 2]))] if x]

    def tail():
        return r.choice([""] * 8 + [' "c', " ", " | echo 1", "|", " x"])

    def blk(d, f, l):
        out = []
        b = lambda ff=f, ll=l: fill() + (blk(d - 1, ff, ll) if d > 0 and r.random() < 0.6 else []) + fill()
        q = r.randrange(6)
        if q < 2:
            out = ["if " + r.choice(["1", "x", "a == b", "(c)"]) + tail()] + b()
            for _ in range(r.choice([0, 0, 1, 2, 3, 4, 5])):
                out += [r.choice(["elseif", "elsei", "elseif", "elsei"]) + " " + r.choice(["2", "y", "!z"]) + tail()] + b()
            if r.random() < 0.6:
                out += [r.choice(["else", "el", "els"]) + tail()] + b()
            out += [r.choice(["endif", "en", "end", "endi"]) + tail()]
        elif q == 2:
            out = [r.choice(["while", "wh"]) + " 1" + tail()] + b(f, True) + [r.choice(["endwhile", "endw"]) + tail()]
        elif q == 3:
            out = ["for " + r.choice(["x", "[a, b]", "[a; b]", "s:x", "x[1]", "[a]", "x.y"]) + " in " + r.choice(["y", "[1, 2]", "f()"]) + tail()] + b(f, True) + [r.choice(["endfor", "endfo"]) + tail()]
        elif q == 4:
            out = ["try" + tail()] + b()
            for _ in range(r.choice([0, 1, 2, 3, 4])):
                out += [r.choice(["catch", "cat", "catc"]) + r.choice(["", " /x/", " /a\\/b/", " #c#", " /x", " 'E1'", " /./"]) + tail()] + b()
            if r.random() < 0.5:
                out += [r.choice(["finally", "fina"]) + tail()] + b()
            out += [r.choice(["endtry", "endt"]) + tail()]
        else:
            out = [r.choice(["function F()", "fu! s:g(a, b)", "function d.f() dict", "func F(...) abort closure", "function F(a = 1)", "function a#b(x, ...) range"]) + tail()] + \
                  fill() + (blk(d - 1, True, False) if d > 0 and r.random() < 0.7 else []) + fill() + [r.choice(["endfunction", "endf", "endfu", "endfunc"]) + r.choice(["", "", "", " x", "!", ' "c', "|x"])]
        return out
    WORDS = cs.BLOCKWORDS + ["endif", "endfor", "endtry", "endwhile", "endfunction", "else", "elseif 1", "finally", "catch", "return", "break", "continue"]
    for _ in range(12000):
        ls = blk(r.choice([0, 1, 1, 2, 3]), False, False)
        if r.random() < 0.3:
            ls += blk(1, False, False)
        e = r.random()
        if e < 0.6 and ls:
            for _ in range(r.choice([1, 1, 1, 2])):
                i, j = r.randrange(len(ls)), r.randrange(len(ls))
                o = r.randrange(6)
                if o == 0:
                    ls[i] = r.choice(WORDS)
                elif o == 1 and len(ls) > 1:
                    del ls[i]
                elif o == 2:
                    ls.insert(j, ls[i])
                elif o == 3:
                    ls[i], ls[j] = ls[j], ls[i]
                elif o == 4:
                    ls.insert(i, r.choice(WORDS))
                else:
                    ls = ls[:max(1, i)]
        if r.random() < 0.15 and not any('"' in x or "\n" in x for x in ls):
            sp = [ls[0]]
            for x in ls[1:]:
                sp.append(r.choice(["\n", " | ", "|", "\n", "\n  "]) + x)
            yield F, False, "".join(sp)
        else:
            yield F, False, "\n".join(r.choice(["", "", "  ", "\t", ":"]) + x if "\n" not in x else x for x in ls) + r.choice(["", "\n"])
    for _ in range(3000):
        yield F, False, r.choice(["\n", "\n", "|"]).join(r.choice(WORDS) for _ in range(r.randint(2, 7)))
    for d in (5, 8, 12, 20, 40):
        for op, cl in (("if 1", "endif"), ("while 1", "endwhile"), ("for x in y", "endfor"), ("try", "endtry"), ("function F()", "endfunction")):
            for cut in (0, 1, 2):
                yield F, False, "\n".join([op] * d + ["x"] + [cl] * (d - cut))
            yield F, False, "\n".join([op] * d + [cl] * (d + 1))


@family("funcs", 3)
def funcs(rng, k):
    """Function definitions and calls."""
    r = rng
    g = G(rng)
    NAME = ["F", "Foo", "s:f", "g:F", "a#b", "a#b#c", "d.f", "d.e.f", "d['x']", "d[1].f", "F{x}", "s:{x}", "<SID>g", "<sid>X", "l:f", "b:F", "f", "1f", "é", "F1", "_F", "", "s:", "(F)", "'F'", "F()", "a:F", "v:f", "&F", "self.f", "g:d.x", "F.", "F#"]
    PAR = ["a", "b", "c", "_x", "x1", "A", "a:b", "firstline", "lastline", "1", "...", "...", "", "é", "a#b", "s:x", "a.b", "a b", "&x", "...a", ".."]
    for _ in range(14000):
        n = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 6, 20, 21, 22])
        ps = []
        for j in range(n):
            p = r.choice(PAR[:6]) + (str(j) if r.random() < 0.9 else "") if r.random() < 0.85 else r.choice(PAR)
            if r.random() < 0.3:
                p += r.choice(["=", " = ", "= ", " =", "\t=\t", "=="]) + r.choice(["1", "'x'", "a:a0", "[1, 2]", "{-> 1}", "f(x, y)", "a ? b : c", "", "x)", "-1", "...", "{'a': 1}"])
            ps.append(p)
        if r.random() < 0.25:
            ps.append("...")
        s = ""
        for j, p in enumerate(ps):
            s += r.choice(WSP) + p + r.choice(WSP)
            if j < len(ps) - 1:
                s += r.choice([",", ",", ",", ",", ", ", ", ", " ,", "", ",,", ";"] if r.random() < 0.2 else [",", ", "])
        s += r.choice(["", "", "", "", ",", " ", ", "]) if r.random() < 0.3 else ""
        at = "".join(r.choice([" ", " ", " ", "", "  ", "\t"]) + r.choice(["abort", "range", "dict", "closure", "abort", "Abort", "abort!", "x", '"c', "| x", "abor", "range2"] if r.random() < 0.3 else ["abort", "range", "dict", "closure"]) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4, 5])))
        hd = r.choice(["function", "fu", "func", "functio", "function"]) + r.choice(["", "", "!", "! ", " !"]) + r.choice([" ", " ", " ", "  ", "", "\t"]) + (r.choice(NAME) if r.random() < 0.5 else r.choice(NAME[:13])) + r.choice(["", "", "", " ", "\t"]) + "(" + s + r.choice([")"] * 8 + ["", "))", "]"]) + at
        body = r.choice([[], ["return"], ["return 1"], ["echo a:a"], ['" c'], ["if 1", "return", "endif"], ["function G()", "return 2", "endfunction"], ["let x =<< E", "endfunction", "E"], ["append", "endfunction", "."], ["return {-> 1} | x"], ["break"], ["while 1", "break", "return", "endwhile"], ["while 1", "function H()", "break", "endfunction", "endwhile"]])
        end = r.choice(["endfunction", "endfunction", "endf", "endfun", "endfunctio", "endfunction!", "endfunction x", 'endfunction "c', "endfunction | echo 1", " endfunction", ":endf", "endfunctions", "endif", ""])
        if r.random() < 0.15:
            yield F, False, r.choice(["silent ", "1,2", ":", "3", "%", "if 1 | "]) + hd + "\n" + "\n".join(body + [end])
        else:
            yield F, False, hd + "\n" + "\n".join(body + [end]) + r.choice(["", "\n", "\necho 1", "\nreturn 1", "\nendfunction"])
    for _ in range(4000):
        yield F, False, r.choice(["delfunction", "delf", "delfunction!", "delfu", "function", "fu", "function!", "call", "cal", "call!", "1,2call", "return", "retu", "function /", "eval", "throw"]) + r.choice([" ", " ", "", "  ", "\t", "!"]) + \
            r.choice(NAME) + r.choice(["", "", "()", "(1)", "(1, 2", "(1)(2)", ".x", "[1]", " x", " | echo 1", ' "c', "\n\\ ()", "->f()", "(a)->b(c)", "() abort", ")"])


@family("vars", 3)
def vars_(rng, k):
    """:let, :const, :unlet, :lockvar, :for and their targets."""
    r = rng
    g = G(rng)
    OPSS = ["="] * 8 + ["+=", "-=", "*=", "/=", "%=", ".=", "..=", "=<<", "==", "=~", "!=", "+", "", ".", "=+", "^=", "?=", "=="]
    TS = cs.TARGETS + ["a b", "1", "'s'", "f()", "a + b", "(x)", "[a]", "-x", "x->y()", "a ? b : c", "&l", "@", "$", "x y", "é", "g:", "x[", "x.", "x[1", "a#b#c", "v:true", "<SID>x", "#", "\"c", "|", "x|y"]
    for _ in range(18000):
        q = r.randrange(8)
        t = r.choice(TS) if r.random() < 0.7 else g.target(2)
        if r.random() < 0.35:
            ts = [r.choice(WSP) + (r.choice(TS) if r.random() < 0.5 else r.choice(["a", "b", "c", "d.e", "f[1]"])) + r.choice(WSP) for _ in range(r.choice([0, 1, 2, 3, 4]))]
            t = "[" + "".join(x + (r.choice([",", ",", ",", ",", ";", ",,", "", " "]) if j < len(ts) - 1 else "") for j, x in enumerate(ts)) + r.choice(["", "", "", ";z", "; z", ",", ";", "; z, y", ";z;w"]) + r.choice(["]", "]", "]", "]", "]", "", ")"])
        e = g.expr(1) if r.random() < 0.7 else lit(r)
        tl = r.choice([""] * 6 + [' "c', " | echo 1", "|x", " x", "\n\\ + 1", " "])
        if q < 3:
            s = r.choice(["let", "let", "let", "let!", "le", "LET", "1,2let"]) + r.choice([" ", " ", " ", "  ", "", "\t"]) + t + r.choice(WSP) + r.choice(OPSS) + r.choice(WSP) + e + tl
        elif q == 3:
            s = r.choice(["const", "cons", "con", "const!"]) + r.choice([" ", " ", "", "\t"]) + t + r.choice(WSP) + r.choice(OPSS) + r.choice(WSP) + e + tl
        elif q == 4:
            s = r.choice(["unlet", "unl", "unlet!", "unl!", "unlet !", "unle"]) + r.choice([" ", " ", "", "\t"]) + r.choice([" ", "  ", "\t", ",", "|", ""]).join([t] + [r.choice(TS) for _ in range(r.choice([0, 0, 1, 2]))]) + tl
        elif q == 5:
            s = r.choice(["lockvar", "lockv", "unlockvar", "unlo", "unlockv", "lockvar!", "unlockvar!", "lock"]) + r.choice([" ", " ", "", "\t"]) + r.choice(["", "", "1 ", "3 ", "0 ", "007 ", "99999999999999999999 ", "-1 ", "1", "1\t", "2  ", "x ", "1.5 "]) + \
                r.choice([" ", "  "]).join([t] + [r.choice(TS) for _ in range(r.choice([0, 0, 1, 2]))]) + tl
        elif q == 6:
            s = "for" + r.choice([" ", " ", " ", "", "  ", "\t"]) + t + r.choice([" ", " ", "", "\t", "  "]) + r.choice(["in"] * 8 + ["", "=", "i", "In", "ink", "of"]) + r.choice([" ", " ", "", "\t"]) + e + tl + "\n" + r.choice(["", "break\n", "continue\n"]) + r.choice(["endfor", "endfo", "endfor!", "endfo x", ""])
        else:
            s = "let" + r.choice([" ", "", "  "]) + r.choice([" ", ""]).join(r.choice(TS) for _ in range(r.choice([0, 1, 2]))) + tl
        yield F, False, s


@family("echoes", 2)
def echoes(rng, k):
    """Commands that take expressions, and how they end."""
    r = rng
    g = G(rng)
    HD = ["echo", "ec", "echon", "echomsg", "echom", "echoerr", "echoe", "execute", "exe", "exec", "call", "cal", "eval", "ev", "throw", "th", "return", "retu", "echohl", "echoh", "if", "while", "wh", "elseif", "let x =", "const x =", "catch", "cat", "silent echo", "1echo", "echo!", "execute!"]
    for _ in range(22000):
        h = r.choice(HD)
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 5])
        es = [r.choice([g.expr(1), lit(r), operand(r), g.expr(2)]) for _ in range(n)]
        s = h + r.choice([" ", " ", " ", "", "  ", "\t"]) + "".join(x + r.choice([" ", " ", "  ", "\t", ""]) for x in es)
        s += r.choice([""] * 5 + ['"c', ' "c', "|", "| echo 1", "||x", ' | "c', '|"c', "\n\\ 'z'", "\n  \\. 'z'", "\n\"\\ c\n\\ 1", "\\", " ;", ",", ")", "]", "}", "=", "\x00", "\r", "\n\n"])
        if r.random() < 0.15:
            s = r.choice(["if 1|", "try|", "function F()\n", "while 1\n", "if 1\n"]) + s + r.choice(["|endif", "\nendif", "\nendtry", "\nendfunction", "\nendwhile", "|endtry"])
        yield F, r.random() < 0.1, s


PATP = ["a", "b", "\\/", "/", "\\\\", "\\", "[/]", "[", "]", "[]/]", "[^]/]", "[^/]", "[[:alpha:]/]", "|", "\\|", '"', " ", "\\#", "#", "\\a", "é", "\n", "[a", "\\[", "\\]", "E1:", "'", "!", "~", "\t", "\\?", "?", "[?]"]


@family("pats", 2)
def pats(rng, k):
    """Commands with patterns."""
    r = rng
    HD = ["catch ", "catch", "cat  ", "vimgrep ", "vim ", "vimgrep! ", "lvimgrep ", "lv ", "vimgrepadd ", "lvimgrepa ", "s", "substitute", "g", "g!", "v", "global", "vglobal", "sy match X ", "syntax region X start=", "syn keyword X ", "/", "?", "1,/", "sm", "sno", "match X ", "2match X ", "sort ", "k", "echo a =~ '", "help ", "tag /", "ilist /", "djump /", "function /", "vimgrep", "syn ", "sy"]
    for _ in range(16000):
        h = r.choice(HD)
        d = r.choice(["/", "/", "/", "#", "!", "'", "?", ",", ";", "|", '"', "a", "\\", " ", "1", "é", "_"])
        p = lambda: "".join(r.choice(PATP if r.random() < 0.8 else [d, "\\" + d, "[" + d + "]"]) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))
        s = h + d + p() + r.choice([d, d, d, ""]) + r.choice(["", "", p() + d, p()]) + r.choice(["", "g", "gj", "j", "gjx", " g", "&", "n#", "c3", "e"]) + r.choice(["", " x", " *.vim", "|y", " | y", '"c', ' "c', "  ", "\t|z"])
        if h.startswith("cat"):
            s = "try\n" + s + "\nendtry"
        elif h.startswith("echo"):
            s += "'"
        yield F, r.random() < 0.1, s


@family("files", 2)
def files(rng, k):
    """Commands on files: ++opt, +cmd, >>, !, and back-quoted expressions."""
    r = rng
    HD = ["w", "write", "w!", "r", "read", "r!", "e", "edit", "e!", "up", "update", "wq", "x", "xit", "exit", "sp", "split", "new", "vnew", "vs", "vi", "view", "sv", "sview", "fin", "find", "sfind", "n", "next", "args", "ar", "argadd", "arge", "sav", "saveas", "file", "f", "so", "source", "tabe", "tabnew", "dr", "drop", "b", "sb", "ene", "enew", "hid", "pedit", "ped", "ptag", "first", "rewind", "wn", "wN", "wp", "wa", "cfile", "cf", "lfile", "cd", "lcd", "mks", "%w", "1,2w", "1r", "diffs", "diffsplit", "ex", "sar", "sargument", "argl", "argg", "bad", "balt", "grep", "make", "gr", "lmake"]
    AR = ["++ff=", "++fileformat=", "++enc=", "++encoding=", "++bad=", "++bin", "++binary", "++nobin", "++nobinary", "++edit", "++p", "++", "++x", "++ffx=", "++bad", "++enc", "++ff", "++edit=1", "++bin=", "++BIN", "++Ff="]
    VA = ["dos", "unix", "mac", "keep", "drop", "x", "", "?", "utf-8", "UTF-8", "é", "xy", "dosx", "latin1", "a|b", "a\\ b", "'q'"]
    for _ in range(22000):
        s = r.choice(HD) + r.choice([" ", " ", " ", "", "  ", "\t", "!", "! "])
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            a = r.choice(AR)
            s += a + (r.choice(VA) if a.endswith("=") or r.random() < 0.1 else "") + r.choice([" ", " ", " ", "  ", "\t", ""])
        if r.random() < 0.4:
            s += "+" + r.choice(["", "10", "/x", "/a\\ b", "s/a/b", "$", "\\|", "\\\\", "a|b", "'x'", "é", "\\", "+", "a\"b"]) + r.choice([" ", " ", "  ", "", "\t"])
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            s += r.choice(["x", "a.txt", " ", ">>", ">> ", "> ", "!ls", "!", "#", "%", "`ls`", "`=x`", "`=x.'|'`", "`=f(\"|\")`", "`", "``", "`=`", "`= 1 `", "`a|b`", "\\|", "|", "é", "\x16|", "\\`", "`=x[1]`.vim", "\"", " \"c", "\\ ", "$E", "~", "*", "`=[`", "`='`'`", "`=1` `=2`"])
        s += r.choice(["", "", "", "|x", " | x", "\"c", " \"c", "\n\\ z"])
        yield F, r.random() < 0.25, s


@family("fold", 3)
def folded(rng, k):
    """Continuation lines and wide text through all of it."""
    r = rng
    g = G(rng, wide=0.4)
    xs = [s for m, s in corpus() if m == F]
    CONT = ["\n\\", "\n \\", "\n\t\\", "\n  \\ ", "\n\"\\ c\n\\", "\n  \"\\x\n\\", "\n\\\\", "\n\"\\\n\"\\\n\\", "\r\n\\", "\n\n\\", "\n\"c\n\\", "\n\\\n\\", "\n \\\r\n \\", "\n\u00a0\\"]
    for _ in range(14000):
        s = r.choice(xs) if r.random() < 0.5 else g.script(r.choice([0, 1]), n=1)
        if r.random() < 0.6:
            s = cs.widen(rng, s)
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(CONT) + s[i:]
        if r.random() < 0.15:
            s = s.replace("\n", "\r\n")
        if r.random() < 0.1:
            s = r.choice(["\\", "\n\\", "\"\\", "\ufeff", "\n\n", "\r\n", " \\x\n"]) + s
        yield F, r.random() < 0.1, s
    for _ in range(3000):
        n = r.randint(1, 12)
        yield F, False, "".join(r.choice(["echo 1", "\\", " \\", "\"\\ ", "\n", "\n", "\n", "\r\n", "\r", " ", "\t", "x", "+ 1", "\"", "é", "あ", "\udcff", "a\\", "|", "\\ y", "let x = [", "1,", "]", "'", "\u00a0\\"]) for _ in range(n))


@family("long", 2)
def long_(rng, k):
    """Long lines, many lines, long lists: nothing changes with size."""
    r = rng
    g = G(rng, wide=0.2)
    for _ in range(900):
        q = r.randrange(9)
        n = r.choice([20, 50, 90, 130, 200, 255, 256, 257, 300])
        if q == 0:
            yield X, False, "[" + ", ".join(r.choice(["1", "a", "'é'", "x.y"]) for _ in range(n)) + r.choice(["]", "]", "", ",]"])
        elif q == 1:
            yield X, False, " + ".join(operand(r) for _ in range(min(n, 130)))
        elif q == 2:
            yield F, False, "\n".join(r.choice(["echo 1", "let x = 1", "", '" c', "Foo", "call f(a)", "\\ y"]) for _ in range(n)) + r.choice(["\n", "\necho )", "\nendif", ""])
        elif q == 3:
            yield F, False, r.choice(["echo ", "Foo ", "let x = "]) + r.choice(["'", '"', ""]) + "".join(r.choice("abc é") for _ in range(n)) + r.choice(["'", '"', "", " | echo )"])
        elif q == 4:
            yield X, False, "(" * min(n, 60) + "a" + ")" * r.choice([min(n, 60), min(n, 60) - 1])
        elif q == 5:
            yield F, False, "if 1\n" + "".join("elseif %d\n" % j for j in range(min(n, 90))) + r.choice(["else\n", ""]) + r.choice(["endif", "endif", ""])
        elif q == 6:
            yield F, False, "let x =<< E\n" + "".join(r.choice(["text", " E", "", "é"]) + "\n" for _ in range(n)) + r.choice(["E\necho 1", "E\necho )", "E \n"])
        elif q == 7:
            yield F, False, "echo 1" + "".join(r.choice(["\n\\ + 1", "\n\\+ 'é'", "\n\"\\ c"]) for _ in range(min(n, 100))) + r.choice(["", " )", "\necho ("])
        else:
            yield F, False, " " * n + r.choice(["echo 1", "echo )", "let x = 1", "\\ x", "x" * 40]) + r.choice(["", "|" + " " * n + "echo ]", "\n" * n + "echo )"])


@family("scr", 6)
def scr(rng, k):
    """Whole scripts, some damaged."""
    for c in cs.scripts(rng, 9000, 2, 0.35, wide=0.1, odd=0.08):
        yield c
    for c in cs.commands(rng, 4000, 0.35, wide=0.1, odd=0.1):
        yield c


@family("exp", 4)
def exp(rng, k):
    """Whole expressions, some damaged."""
    for c in cs.exprs(rng, 15000, 4, 0.35, wide=0.1, odd=0.08):
        yield c


# ------------------------------------------------- compiled and walked

def valid(rng, n):
    g = G(rng, wide=0.15, odd=0.03)
    for _ in range(n):
        q = rng.randrange(6)
        if q == 0:
            yield X, False, g.expr(rng.choice([1, 2, 3, 4]))
        elif q == 1:
            yield F, False, g.simple(rng.choice([1, 2])) + rng.choice(["", "", " | " + g.simple(1)])
        elif q == 2:
            yield X, False, tern(rng, 2) if rng.random() < 0.5 else rng.choice(BASE) + "".join(rng.choice(POST) for _ in range(rng.randint(1, 4)))
        elif q == 3:
            yield F, False, "\n".join(cs.nest(rng, rng.randint(1, 3), False, False))
        elif q == 4:
            yield F, False, g.script(rng.choice([1, 2]), n=1)
        else:
            yield F, False, "\n".join(g.block(rng.choice([1, 2]), False, False))


@family("sexp", 4, op="sexp")
def sexp(rng, k):
    """Valid texts to compile."""
    xs = corpus()
    if k == 0:
        for m, s in xs:
            yield m, False, s
            if m == F:
                yield F, False, "if 1\n" + s + "\nendif"
                yield F, False, "function F()\ntry\n" + s + "\ncatch\n" + s + "\nendtry\nendfunction"
            else:
                for t in ("echo %s", "echo %s %s", "let x = %s", "let x[%s] = 1", "let x[%s:] = 1", "call f(%s)", "return_ %s", "exe %s", "throw %s", "eval %s", "if %s\nendif", "while %s\nendwhile", "for a in %s\nendfor", "unlet x[%s]", "function F(a=%s)\nendfunction", "lockvar x[%s]"):
                    yield F, False, t.replace("%s", s)
        for t in cs.TARGETS:
            for f in ("let %s = 1", "unlet %s", "lockvar 2 %s", "unlockvar %s", "for %s in y\nendfor", "let [a, %s; b] = c", "const %s = 1", "delfunction %s", "let %s .= 2"):
                yield F, False, f.replace("%s", t)
    for c in valid(rng, 12000):
        yield c


@family("walk", 4, op="walk")
def walk(rng, k):
    """Valid texts to walk, with the visitor's answers."""
    xs = corpus()

    def pol():
        return rng.choice([[], [], [1], [2], [1, 2]]) if rng.random() < 0.4 else [rng.choice([0, 1, 1, 1, 2, 2]) for _ in range(rng.randint(1, 9))]
    for m, s in xs:
        yield m, False, s, dict(pol=pol())
        if m == F:
            yield F, False, "if 1\n" + s + "\nendif", dict(pol=pol())
    for m, nv, s in valid(rng, 7000):
        yield m, nv, s, dict(pol=pol())


TINY = [
    (F, "redir", ["!", " ", "@", '"', "a", ">", "=", "|"], 4),
    (F, "redir @", ["a", "A", '"', "*", ">", "|", " ", "x"], 4),
    (F, "wincmd ", ["g", "w", "^", "|", " ", '"', "]", "é"], 4),
    (F, "wincmd", ["g", "w", "!", "|", " ", "+"], 4),
    (F, "sy", ["n", " ", "match", "/", "|", '"', "a", "="], 5),
    (F, "w", ["!", ">", " ", "x", "|", '"', "`"], 5),
    (F, "r", ["!", " ", "x", "|", '"', "`", "=`"], 5),
    (F, "e ", ["+", "1", " ", "\\", "|", '"', "x", "`="], 4),
    (F, "w ++", ["bin", "no", "ff", "=", "dos", "enc", " ", "x", "|", "edit", "bad"], 4),
    (F, "vim ", ["/", "a", "\\", " ", "g", "j", "|", "x"], 5),
    (F, "map ", ["x", "|", "\x16", "\\", '"', " ", "<CR>"], 4),
    (F, "normal", ["!", " ", "|", '"', "\\", "x", "\n"], 4),
    (F, "Foo", ["!", " ", "|", '"', "\\", "x", "1", "_", ":"], 4),
    (F, "set ", ["x", "=", "|", '"', "\\", " ", "\x16"], 5),
    (F, "", ["'", "a", "<", ",", "/", "\\", "+", "1", ";"], 4),
    (F, "", ["1", ",", "$", "%", ".", "-", " ", "d", "|", ";"], 4),
    (F, "", ["\\", "&", "?", "/", "x", ",", "s", "+"], 5),
    (F, "k", ["a", " ", "|", '"', "!", "1", "é"], 4),
    (F, "d", ["l", "p", "e", " ", "|", "!", "x", "1"], 4),
    (F, "s", ["s", "c", "g", "i", "I", "n", "r", "/", "x"], 4),
    (F, "", ["s", "i", "l", "e", "n", "!", " ", "t"], 5),
    (F, "3", ["t", "a", "b", " ", "v", "e", "r", "|"], 5),
    (F, "", ["@", '"', "a", "|", ":", "*", " ", "!"], 4),
    (F, "", ["<", ">", "&", "~", "=", "#", "!", "|", " "], 4),
    (F, "py", ["<", " ", "E", "\n", ".", "3", "|", "x"], 5),
    (F, "let x =<<", [" ", "E", "\n", "trim", "e", '"', "eval"], 5),
    (F, "append", ["\n", ".", " ", "x", '"', "!", "|"], 5),
    (F, "change", ["\n", ".", " ", "x", '"', "!", "|"], 5),
    (F, "lockvar", [" ", "1", "x", "!", ".", "|", "9"], 5),
    (F, "unlet", [" ", "!", "x", "[1]", ",", "|", '"', "."], 4),
    (F, "let ", ["x", "[", "]", ",", ";", "=", " ", "1"], 5),
    (F, "let x", [".", "=", "+", " ", "1", "y", "[1]", "<"], 5),
    (F, "const ", ["x", "[", "]", ",", "=", " ", "1", ";"], 5),
    (F, "for ", ["x", " ", "in", "[", "]", ",", "y", ";"], 5),
    (F, "catch", [" ", "/", "x", "\\", "|", '"', "E1"], 5),
    (F, "function F(", ["a", ",", "...", "=", "1", ")", " ", "b"], 5),
    (F, "function F()", [" ", "abort", "range", "dict", "closure", "!", '"', "x"], 4),
    (F, "function", ["!", " ", "F", "(", ")", "/", "s:", "."], 5),
    (F, "delfunction", ["!", " ", "F", ".", "x", "|", "s:"], 5),
    (F, "call ", ["f", "(", ")", ",", ".", " ", "|", "x"], 5),
    (F, "return", [" ", "1", "|", '"', "x", "!"], 5),
    (F, "echohl", [" ", "x", "|", '"', "\\", "é"], 5),
    (F, "echo ", ["a", " ", "|", '"', "'", "||", "\n", "\\"], 5),
    (F, "a", ["\n", "\\", " ", '"', "b", "|", "\r"], 5),
    (F, "if 1", ["|", "\n", "else", "if", "endif", " 2", '"c'], 5),
    (F, "try", ["|", "\n", "catch", "/x/", "finally", "endtry", " "], 5),
    (X, "", ["0", "x", "b", "1", "z", ".", "e", "f"], 5),
    (X, "1", [".", "5", "e", "+", "-", "0", "a"], 5),
    (X, "0z", ["0", "F", "f", ".", "g", "é", " "], 6),
    (X, '"', ["\\", '"', "<", "a", "x", "'", "é"], 5),
    (X, "'", ["\\", "'", '"', "a", "|", "é"], 6),
    (X, "[", ["1", ",", " ", "]", "[", ":", "a"], 6),
    (X, "{", ["a", ",", ":", "->", "}", " ", "1", "..."], 5),
    (X, "#{", ["a", "-", "_", "1", ":", ",", "}", " "], 5),
    (X, "#{a", ["-", ":", " ", "1", ",", "}", "b"], 5),
    (X, "x", ["{", "}", "a", "1", ".", "[", "]", "("], 5),
    (X, "x", ["->", "f", "(", ")", "{", "}", " ", "x"], 5),
    (X, "x[", ["1", ":", "]", "a", "s:", " ", "-"], 6),
    (X, "f(", ["a", ",", " ", ")", "(", "1", "."], 6),
    (X, "a", ["?", ":", "b", " ", "(", ")", "||"], 6),
    (X, "a", ["=", "~", "!", "<", "#", "?", " ", "b"], 5),
    (X, "a ", ["is", "not", "#", "?", " ", "b", "=="], 5),
    (X, "a", [".", "1", "b", " ", "-", "+", ">"], 6),
    (X, "", ["&", "l", ":", "x", "g", "&&", " "], 5),
    (X, "", ["@", '"', "a", "=", " ", "'", "@@"], 5),
    (X, "", ["$", "A", "_", "1", "é", "{", "}"], 5),
    (X, "", ["a", ":", "#", "1", "s", "g", "0", "_"], 5),
    (X, "", ["<", "SID", "sid", ">", "x", "s:", " "], 5),
    (X, "", ["!", "-", "+", "a", "1", " ", "(", ")"], 6),
]


@family("tiny", 4)
def tiny(rng, k):
    """All short words of pieces after a head."""
    n = 0
    for m, h, al, hi in TINY:
        cap = 14000
        ws = list(cs.words(al, 0, hi))
        if len(ws) > cap:
            r2 = random.Random("tiny/" + h + "".join(al))
            low = [w for w in cs.words(al, 0, hi - 1)]
            ws = low + r2.sample(ws[len(low):], max(0, cap - len(low)))
        for w in ws:
            n += 1
            if n % 4 == k:
                yield m, False, h + w


BLANKS = ["\u00a0", "\u3000", "\u2003", "\x0b", "\x0c", "\r", "\x08", "\u0085", "\u200b", "\ufeff", "\x7f", "\x1b", "\x00", "\udca0", "\u2028", "\u0301", "\x1f", "\u202f"]
BLANKAT = ["echo 1\n%s\\ + 2", "echo 1\n %s\\ + 2", "echo 1\n%s \\ + 2", "echo 1\n\t%s\t\\ + 2", "\" a\n%s\\b", "\" a\n \\%sb", "%s\\x\necho 1", "let x = [1,\n%s\\ 2]", "if 1\n%sendif", "if 1\nendif%s", "if 1\nendif%s\"c", "if%s1\nendif", "%secho 1", "echo%s1", "echo 1%s", "echo 1%s2",
           "echo 1 |%secho 2", "echo 1%s|echo 2", "echo 1%s\"c", "let%sx = 1", "let x%s= 1", "let x =%s1", "let x = 1%s", "let [a,%sb] = c", "let [a%s, b] = c", "let x =<<%sE\na\nE", "let x =<< trim%sE\na\nE", "let x =<< E%s\na\nE", "let x =<< E\n%sa\nE", "let x =<< E\na%s\nE",
           "let x =<< E\n%sE\nE", "let x =<< trim E\n%sa\n%sE\nE", "let x =<< trim E\n  a\n%s E\n  E", "append\n%s.\n.\necho", "append\n.%s\n.\necho", "lua <<%sE\nE\necho", "lua << E\n%sE\nE\necho", "lua << E\nE%s\nE\necho", "lua <<\n.%s\n.\necho", "loadkeymap%s\na\nb",
           "function F(a,%sb)\nendfunction", "function F(a%s,b)\nendfunction", "function F()%sabort\nendfunction", "function F() abort%s\nendfunction", "function%sF()\nendfunction", "function F%s()\nendfunction", "function F()\nendfunction%s", "function F()\n%sendfunction",
           "silent%secho 1", "silent!%secho 1", "3%secho", "1,%s2d", "1%s,2d", "/x/%sd", "'a%sd", "w%s>> x", "w ++ff=dos%sx", "w ++bin%sx", "e +10%sx", "e +a\\%sb x", "e `=x%s`", "s%sa%sb%s", "s/a/b/%s|echo", "vimgrep%s/a/ x", "vimgrep /a/%sx|y", "map%sx y", "normal%sx", "Foo%sx", "Foo%s", "Foo x%s|y",
           "call%sf()", "call f()%s", "call f(%s)", "unlet%sx", "unlet x%sy", "lockvar%s1 x", "lockvar 1%sx", "for%sx in y\nendfor", "for x%sin y\nendfor", "for x in%sy\nendfor", "for [a,%sb] in y\nendfor", "catch%s/x/", "try\ncatch%s/x/\nendtry", "try\ncatch /x/%s\nendtry", "echohl%sNone", "echohl None%s|x",
           "delfunction%sF", "return%s1", "function F()\nreturn%s1\nendfunction", "function F()\nreturn 1%s\nendfunction", "finish%s", "finish%s|x\nif", "throw%s1", "execute%s1", "execute 1%s2", "eval%s1", "echo a%s+ b", "echo a +%sb", "echo a%s[0]", "echo a[%s0]", "echo a[0%s]", "echo a[0%s:1]", "echo a%s(b)", "echo a(b%s)",
           "echo a%s.b", "echo a.%sb", "echo a%s->b()", "echo a->%sb()", "echo a->b%s()", "echo {%s}", "echo {'a'%s: 1}", "echo {'a':%s1}", "echo #{%sa: 1}", "echo #{a%s: 1}", "echo {a%s-> a}", "echo {a,%sb -> a}", "echo {a ->%sa}", "echo !%sa", "echo a%s? b : c", "echo a ?%sb%s:%sc", "echo a is%sb", "echo a%sis b",
           "echo a{%sb}c", "echo a{b%s}c", "echo '%s'", "echo \"%s\"", "\"%s", "\" %s ", "echo &%sx", "echo @%s", "echo $%sX", "command%sX y", "autocmd%sx y|z", "syntax%smatch x /a/|b", "wincmd%sw|x", "redir%s@a|x", "help%sx|y", "set%sx|y", "k%sa", "py%sx", "tab%ssplit", "1%stab x", "g%s/x/d", "!%sls", "r%s!ls", "@%sa"]


@family("blank", 1)
def blank(rng, k):
    """Characters that some take for blanks, in each place."""
    for t in BLANKAT:
        for c in BLANKS + [" ", "\t", " \t", "  "]:
            s = t.replace("%s", c)
            yield F, rng.random() < 0.2, s
            yield F, False, t.replace("%s", rng.choice([" ", ""]) + c + rng.choice([" ", ""]))
            if t.startswith("echo ") and "\n" not in t and "|" not in t:
                yield X, False, s[5:]


WORDS = ["function", "range", "abort", "dict", "closure", "firstline", "lastline", "self", "a:000", "a:0", "a:1", "v:true", "v:false", "v:null", "v:none", "v:val", "in", "is", "isnot", "endif", "echo", "let", "x", "true", "false", "null", "END", "EOF", "EOS", "trim", "eval", "g", "s:", "l:", "g:", "a:", "b:", "w:", "t:", "v:",
         "<SID>", "<sid>", "<SNR>1_f", "Print", "X", "Next", "Foo", "F", "_", "__", "_x", "x_", "x1", "X1", "x#y", "x#y#z", "g:x", "s:x", "l:x", "a:x", "s:X", "x:y", "g:x#y", "toupper", "printf", "map", "filter", "len", "exists", "has", "get", "call", "string", "type", "not", "and", "or", "if", "else", "end", "for", "while", "try",
         "catch", "finally", "return", "throw", "call_", "def", "var", "vim9script", "endfunc", "name", "args", "item", "key", "value", "this", "super", "import", "export", "as", "E", "e", "i", "n", "r", "lua", "python3", "ruby", "None", "NONE", "ALL", "GROUP", "cword", "cfile", "sfile", "afile", "amatch", "abuf", "args_", "f",
         "0", "1", "00", "007", "08", "10", "0x1F", "0X1f", "0b1", "0o7", "1.5", "1.5e3", "1e3", "1.", ".5", "0z", "0zAB", "0zAB.CD", "65536", "2147483648", "9223372036854775808", "99999999999999999999", "''", '""', "'a'", '"a"', "'a''b'", '"a\\"b"', "&nu", "&l:nu", "&g:nu", "&t_xx", "&t_k1", "@a", "@\"", "@@", "@", "@:", "@=", "$HOME", "$",
         "[]", "{}", "#{}", "[1]", "{'a': 1}", "#{a: 1}", "()", "(1)", "f()", "x.y", "x[1]", "x[:]", "x->y()", "{-> 1}", "{x -> x}", "{_ -> 1}", "{... -> 1}", "x{y}z", "{x}", "s:{x}", "-1", "!x", "+x", "x .. y", "x.y.z", "x . y"]
WORDAT = ["echo %s", "echo %s(1)", "echo %s()", "echo %s('a', 2)", "echo x->%s(1)", "echo x->%s()", "echo %s->f(1)", "echo x.%s", "echo %s.x", "echo x[%s]", "echo %s[0]", "echo x[%s:%s]", "echo x[%s :]", "echo %s[1:]", "echo {%s: 1}", "echo {'%s': 1}", "echo #{%s: 1}", "echo [%s]", "echo [%s, %s]", "echo {%s -> 1}", "echo {%s, y -> 1}", "echo {x, %s -> 1}", "echo {x -> %s}",
          "echo x{%s}", "echo {%s}x", "echo -%s", "echo !%s", "echo %s + %s", "echo %s . %s", "echo %s.%s", "echo %s..%s", "echo %s == %s", "echo %s is %s", "echo %s ? %s : %s", "echo %s?%s:%s", "echo %s && %s", "echo (%s)", "echo f(%s)", "echo f(%s, %s)", "echo %s %s", "echo %s|echo 1", "echo %s\"c",
          "let %s = 1", "let x = %s", "let %s += 1", "let %s .= 1", "let %s", "let [%s] = x", "let [x, %s] = y", "let [x; %s] = y", "let %s.x = 1", "let %s[0] = 1", "let %s[1:] = 1", "let x.%s = 1", "let %s =<< E\nE", "let x =<< %s\n%s\nb\n", "let x =<< trim %s\n  a\n%s", "const %s = 1", "const [%s] = x", "unlet %s", "unlet x %s", "unlet! %s",
          "lockvar %s", "lockvar 2 %s", "unlockvar %s", "for %s in x\nendfor", "for x in %s\nendfor", "for [x, %s] in y\nendfor", "call %s()", "call %s(1)", "call %s", "call x.%s()", "call x->%s()", "delfunction %s", "delfunction x.%s", "function %s()\nendfunction", "function %s(a)\nendfunction", "function F(%s)\nendfunction", "function F(a, %s)\nendfunction",
          "function F(%s = 1)\nendfunction", "function F(a = %s)\nendfunction", "function F() %s\nendfunction", "function %s", "function x.%s()\nendfunction", "function! s:%s() abort\nendfunction", "function F()\nreturn %s\nendfunction", "if %s\nelseif %s\nendif", "while %s\nendwhile", "throw %s", "eval %s", "execute %s", "execute %s %s", "echohl %s", "echohl %s|x", "try\ncatch %s\nendtry",
          "try\ncatch /%s/\nendtry", "%s", "%s x", "%s! x", "%s|x", "silent %s", "1,2%s", "%s\nendif", "if 1\n%s\nendif", "lua << %s\n%s\necho 1", "append\n%s\n.\necho", "map %s x|y", "set %s|x", "syntax %s|x", "command %s x|y", "autocmd %s x|y", "normal %s", "help %s|x", "e +%s x", "w ++%s x", "w ++enc=%s x", "e %s|x", "redir %s|x", "wincmd %s|x", "vimgrep /%s/ x|y", "s/%s/x/|y", "g/%s/d", "/%s/d", "'%s", "\"%s"]


@family("word", 4)
def word(rng, k):
    """Names, literals and other words that someone may treat in a special way,
    in each place."""
    n = 0
    for t in WORDAT:
        for w in WORDS:
            n += 1
            if n % 4 == k:
                yield F, n % 9 == 0, t.replace("%s", w)
                if t.startswith("echo ") and "|" not in t and n % 3 == 0:
                    yield X, False, t[5:].replace("%s", w)
            elif n % 4 == (k + 1) % 4 and "%s" in t.replace("%s", "", 1):
                yield F, False, "".join(x if x != "\0" else rng.choice(WORDS) for x in t.replace("%s", "\0"))


STMTS = ["echo 1", "echo", "echo 'a' .. b", "let x = 1", "let x", "let [a, b; c] = d", "let x =<< trim E\n a\nE", "let x.y[1] += 2", "const c = 1", "unlet x y", "unlet! z", "lockvar 2 x", "unlockvar! x", "call f(1)", "eval f()", "execute 'a' b", "echohl None", "echomsg a b", "echoerr a", "echon 1 2", "throw 'x'", "return", "return 1", "finish",
         "delfunction F", "if 1\nelse\nendif", "if 1|elseif 2|endif", "while 1\ncontinue\nendwhile", "for x in y\nbreak\nendfor", "try\ncatch /a/\nfinally\nendtry", "function F(a, b = 1, ...) abort\nreturn a:a\nendfunction", "function! s:f() dict\nendfunction", "function", "function F", "function /x", "append\nx\n.", "insert\n.", "change!\ny\n.", "lua << E\nx\nE", "lua x",
         "python3 <<\n.", "s/a/b/g", "s", "&&", "~", "g/x/s/a/b/", "v/x/d", "normal x", "w!", "w >> f", "w !ls", "r !ls", "r f", "e! +10 f", "e ++ff=dos ++bad=x f", "update >> f", "1,2d", "%d", "1", "'a,'b", "/x/;?y?", "silent! 3verbose x", "silent", "tab split", "keepalt 2tab help x", "vertical belowright new", ">", ">>>", "<<",
         "k a", "ka", "kma", "dl", "dp", "del x", "d x 3", "py x", "pyfile x", "pyx y", "print", "Print", "P", "Foo", "Foo! a|b", "X", "Next", "N", "NN", "map a b", "nnoremap <silent> a b c", "autocmd A B c", "command! -nargs=* X y", "set x=1", "setlocal y", "syntax match a /b/", "syn region a start=/b/ end=+c+", "highlight a b=c", "wincmd x", "wincmd gf", "redir @a", "redir > f",
         "redir END", "vimgrep /a/gj b", "lvimgrep x y", "e `=x`", "e `ls`", "help x", "sign x", "scriptencoding utf-8", "runtime! x", "source %", "argdo x", "bufdo y", "@a", "*", "@@", "!ls", "=", "#!x", "\" comment", ":", "::echo 1", "", " ", "1 \" c", "echo 1 \" c", "w x\" c", "let y = \"s\"", "is x", "intro", "smile", "doautocmd x y", "sil", "sl 1", "star!", "startinsert", "noh", "cq", "q!", "wq", "x", "sp f", "b 1", "1b", "ls", "comc", "comclear", "nohlsearch", "windo x", "tabdo y", "catch", "endif", "endfor", "else", "break"]


@family("after", 4)
def after(rng, k):
    """Each command after each other: nothing of a command is left for the next."""
    n = 0
    for a in STMTS:
        for b in STMTS:
            n += 1
            if n % 4 == k:
                yield F, n % 5 == 0, a + rng.choice(["\n", "\n", "|", " | "]) + b + rng.choice(["", "\n", "\necho )", "|echo 2"])
                c = [a, b, rng.choice(STMTS)]
                rng.shuffle(c)
                yield F, n % 5 == 0, rng.choice(["\n", "|", "\n"]).join(c)


@family("size", 2)
def size(rng, k):
    """Counts around the sizes at which something could change."""
    r = rng
    NS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 22, 25, 30, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129]
    for n in NS if k == 0 else [199, 200, 201, 250, 254, 255, 256, 257, 258, 300, 399, 400, 500, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025]:
        yield from sizes(n)


def sizes(n):
    m = min(n, 400)
    nm = "n" * n
    a = ", ".join("a%d" % j for j in range(m))
    for s in ["echo " + nm, "let %s = 1" % nm, "echo '%s'" % nm, 'echo "%s" )' % nm, "echo 1" * 0 + "1" * n, "\"" + nm, "Foo " + nm + "|echo )", "echo )" + nm, nm, "F" + nm, "echo " + "1 " * m, "echo " + "1 " * m + ")",
              "let [%s] = x" % a, "let [%s; z] = x" % a, "let [%s, a0] = x" % a, "for [%s] in x\nendfor" % a, "unlet " + a.replace(",", ""), "lockvar %d x" % n, "lockvar " + a.replace(",", ""), "echo [%s]" % a, "echo [%s" % a, "echo f(%s)" % a, "echo x->f(%s)" % a, "call f(%s)" % a,
              "echo {%s -> 1}" % a, "function F(%s)\nendfunction" % a, "function F(%s, ...)\nendfunction" % a, "function F(%s, a%d)\nendfunction" % (a, m // 2), "function F(%s)\nendfunction" % ", ".join("a%d = %d" % (j, j) for j in range(m)), "echo {%s}" % ", ".join("'k%d': %d" % (j, j) for j in range(m)),
              "echo #{%s}" % ", ".join("k%d: %d" % (j, j) for j in range(m)), "echo " + " + ".join("a%d" % j for j in range(m)), "echo " + " . ".join("a%d" % j for j in range(m)), "echo x" + ".a" * m, "echo x" + "[1]" * m, "echo x" + "[1:]" * min(m, 60), "echo x" + "->f()" * m, "echo x" + "(1)" * m, "echo " + "-" * m + "1", "echo " + "!" * m + "x",
              "echo " + "a ? b : " * min(m, 50) + "c", "silent " * min(m, 60) + "echo 1", "%dverbose echo 1" % n, "%dtab help" % n, "1," * m + "2d", "%d,%dd" % (n, n), "/x/" * min(m, 100) + "d", ">" * n, "echo 1" + "|echo 2" * min(m, 200), "echo 1" + "|" * n, ":" * n + "echo )", " " * n + "echo )", "\t" * n + "echo )",
              "\n" * n + "echo )", "echo 1" + " " * n + "|echo )", "if 1\n" * min(m, 60) + "endif\n" * min(m, 60), "if 1\n" * min(m, 60) + "endif\n" * (min(m, 60) + 1), "if 1\n" + "elseif 2\n" * min(m, 100) + "else\nendif", "try\n" + "catch /x/\n" * min(m, 100) + "finally\nendtry", "while 1\n" + "echo 1\n" * min(m, 200) + "endwhile",
              "let x =<< E\n" + "a\n" * min(m, 300) + "E\necho )", "let x =<< %s\na\n%s\necho )" % (nm.upper(), nm.upper()), "append\n" + "a\n" * min(m, 300) + ".\necho )", "echo 1" + "\n\\ + 2" * min(m, 120) + " )", "echo 1\n" + " " * n + "\\ )", "function F()\n" * min(m, 40) + "endfunction\n" * min(m, 40), "s/%s/%s/|echo )" % (nm, nm), "e +%s x|echo )" % nm,
              "w ++enc=%s x" % nm, "echohl %s" % nm, "catch /%s/" % nm, "try\ncatch /%s/\nendtry|echo )" % nm, "é" * n + " )", "echo '" + "é" * n + "' )", "echo '" + "あ" * n + "' )", "echo &" + nm, "echo $" + nm.upper(), "echo 0x" + "f" * n, "echo 0z" + "ab" * n, "echo 0z" + "a" * n, "echo 1." + "5" * n, "echo 1.5e" + "1" * n,
              "echo \"" + "\\n" * n + "\" )", "echo '" + "''" * n + "' )", "normal " + nm + "|x", "1" * n, "1" * n + "d", "+" * min(m, 100) + "d", "echo (" * 0 + "echo " + "(" * min(m, 60) + "a" + ")" * min(m, 60), "echo " + "[" * min(m, 60) + "a" + "]" * min(m, 60), "echo " + "[" * min(m, 60), "echo x{" + nm + "}y", "echo 1 \"" + nm]:
        if len(s) < 2500:
            yield F, False, s
            if s.startswith("echo ") and "\n" not in s and "|" not in s:
                yield X, False, s[5:]


@family("huge", 1)
def huge(rng, k):
    """The same a power of ten further on: nothing wraps, is cut or forgotten."""
    r = rng
    it = lambda n: ", ".join(r.choice(["a%d" % j, "%d" % j, "'s%d'" % j, "x.y", "-1", "f(%d)" % j, "é", "[1]"]) for j in range(n))
    sm = ["echo 1", "let x = 1", "", '" c', "Foo a|b", "call f(a)", "\\ + 2", "if 1|endif", "set x", "w >> f", "silent! 3d", "k a", "echo a ? b : c", "unlet x", "let [a, b] = c", "map a b|c", "lua << E\nE", "s/a/b/", "throw 'x'"]
    bad = ["", "", "echo )", "endif", "let 1 = 2", "foo", "call f"]
    for n in [250, 450]:
        for o, c in ["[]", ["f(", ")"], ["{'k': [", "]}"], ["x->m(", ")"]]:
            for e in ["", " )", ", ]"]:
                yield X, False, o + it(n) + c + e
        yield X, False, " + ".join("a%d" % j for j in range(n)) + r.choice([" ]", ""])
        yield X, False, " . ".join(r.choice(["a", "'b'", "c.d", "1"]) for j in range(n)) + r.choice([" )", ""])
        yield X, False, " || ".join(r.choice(["a && b", "!c", "d == 1", "(e)"]) for j in range(n // 2)) + r.choice([" )", ""])
        yield X, False, "{" + ", ".join("'k%d': %d" % (j, j) for j in range(n)) + r.choice(["}", "} )", ""])
        yield X, False, "x" + "".join(r.choice([".a", "[1]", "(2)", "->f()", "[1:2]"]) for j in range(n)) + r.choice(["", " )"])
        yield X, False, "'" + "".join(r.choice(["a", "''", "é", "あ", " "]) for j in range(n * 5)) + r.choice(["' )", "'", ""])
        yield X, False, '"' + "".join(r.choice(["a", '\\"', "é", "\\n", " ", "\\\\"]) for j in range(n * 5)) + r.choice(['" )', '"', ""])
        yield F, False, "function F(" + ", ".join("a%d" % j for j in range(n)) + r.choice([", ...)", ")", ", a7)"]) + "\nendfunction"
        yield F, False, "unlet " + " ".join("a%d" % j for j in range(n)) + r.choice(["", " 1"])
        yield F, False, "echo " + " ".join("a%d" % j for j in range(n)) + r.choice(["", " )"])
        yield F, False, "let [" + ", ".join("a%d" % j for j in range(n)) + r.choice(["; b] = c", "] = c", "] = )", ", 1] = c"])
        yield F, False, "let x =<< END\n" + "".join(r.choice(["a", " END", "é", "", "END "]) + "\n" for j in range(n)) + "END\n" + r.choice(bad)
        yield F, False, "append\n" + "".join(r.choice(["a", " .", "é", "", ". "]) + "\n" for j in range(n)) + ".\n" + r.choice(bad)
        yield F, False, "echo 1" + "".join(r.choice(["\n\\ + 1", "\n  \\ + 'é'", "\n\"\\ c", "\n\\"]) for j in range(n // 2)) + r.choice(["", " )", "\necho ("])
        yield F, r.random() < 0.3, "|".join(r.choice(["echo 1", "let x = 2", "call f()", "d", "silent 1", "w x"]) for j in range(n // 3)) + r.choice(["", "|echo )"])
        for q in range(4):
            yield F, r.random() < 0.3, "\n".join(r.choice(sm) for j in range(n // 2)) + "\n" + r.choice(bad)
    for d in [70, 90, 99, 100, 101, 120, 127, 128, 129, 150, 200]:
        for e in [0, 0, -1, 1]:
            yield X, False, "(" * d + "a" + ")" * (d + e)
            yield X, False, "[" * d + "]" * (d + e)
            yield F, False, "if 1\n" * d + "endif\n" * (d + e)
            o = [r.choice([("if 1", "endif"), ("while 1", "endwhile"), ("for a in b", "endfor"), ("try", "endtry"), ("function F()", "endfunction")]) for _ in range(d)]
            yield F, False, "\n".join(a for a, b in o) + r.choice(["\n", "\necho 1\n", "\nelse\n", "\nfinally\n", "\nreturn\n"]) + "\n".join(b for a, b in reversed(o[:d] if e >= 0 else o[1:])) + ("\nendif" if e > 0 else "")
        yield X, False, "f(" * d + "a" + ")" * d
        yield X, False, "x[" * d + "a" + "]" * d + r.choice(["", ")"])
        yield X, False, "a ? b : " * d + "c"
        yield X, False, "a ? " * d + "b" + " : c" * d
        yield X, False, "-" * (3 * d) + "1"
        yield F, False, "silent! " * d + "echo 1"
        yield F, False, "1;" * d + "2d"
        yield F, False, "if 1\n" + "elseif 2\n" * (3 * d) + r.choice(["else\nendif", "else\nelse\nendif", "endif", "endwhile"])
        yield F, False, "try\n" + "catch /x/\n" * (3 * d) + r.choice(["finally\nendtry", "finally\ncatch\nendtry", "endtry", ""])
    for n in [1500, 2048]:
        for s in ["'%s'", '"%s"', "%s", "&%s", "0x%s", "[%s]", "$%s", "x.%s", "{%s}", "{'%s': 1}", "f(%s)"]:
            t = s.replace("%s", "e" * n)
            yield X, False, t + r.choice([" )", "", " + y", "[1] ]"])
            yield X, False, " " * n + s.replace("%s", "a1") + r.choice([" )", "", " + y", "[1] ]", " ? b : c"])
        for s in ["echo %s", "let %s = 1", "\" %s", "Foo %s", "normal %s", "s/%s/x/|echo )", "echohl %s", "function F%s()\nendfunction", "let x =<< %s\n%s\necho )", "e +%s x|echo )", "map a %s|echo )", "call F%s()|echo )", "echo 1|echo '%s'|echo )", "echo\n\\ '%s' )", "X%s|echo )"]:
            yield F, False, s.replace("%s", "E" * n)
