"""The cases of each property: small scopes taken exhaustively, and random
ones.  Every function yields (mode, nvim, source) or (mode, nvim, source,
more), where more is a dictionary of further fields of the case."""
import itertools, os, re
from . import core
from .gen import G, BINOPS, NUMS, BLOBS, STRS, NAMES, OPTS, ENVS, REGS

X, F = "expr", "file"


def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alpha, repeat=n):
            yield "".join(t)


def pick(rng, xs, n):
    """n of xs, or all of them."""
    xs = list(xs)
    return xs if n is None or len(xs) <= n else rng.sample(xs, n)


def rand_words(rng, alpha, lo, hi, n):
    for _ in range(n):
        yield "".join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))


def exprs(rng, n, depth=3, damage=0.25, **kw):
    g = G(rng, **kw)
    for _ in range(n):
        s = g.expr(rng.randint(1, depth))
        if rng.random() < damage:
            s = g.damage(s, rng.choice([1, 1, 2]))
        yield X, False, s


def scripts(rng, n, depth=2, damage=0.25, **kw):
    g = G(rng, **kw)
    for _ in range(n):
        s = g.script(rng.randint(0, depth), n=rng.choice([1, 1, 1, 2]))
        if rng.random() < damage:
            s = g.damage(s, rng.choice([1, 1, 2, 3]))
        yield F, rng.random() < 0.2, s


def commands(rng, n, damage=0.3, **kw):
    g = G(rng, **kw)
    for _ in range(n):
        s = g.mods() * (rng.random() < 0.3) + (g.range() if rng.random() < 0.3 else "") + g.simple() + g.line_tail()
        if rng.random() < damage:
            s = g.damage(s, rng.choice([1, 1, 2]))
        yield F, rng.random() < 0.2, s


_table = None


def table():
    """The commands of the specification: name, shortest length, kind, flags."""
    global _table
    if _table is None:
        t = open(os.path.join(core.SPEC, "VimCommands.tla"), encoding="utf-8").read()
        cut = t.index("NeovimAdded")
        pat = r'n \|-> "([^"]*)", m \|-> (\d+), q \|-> "([^"]*)", g \|-> "([^"]*)"'
        vim = re.findall(pat, t[:cut])
        nv = re.findall(pat, t[cut:])
        _table = [(n, int(m), q, g.split("|"), False) for n, m, q, g in vim] + \
                 [(n, int(m), q, g.split("|"), True) for n, m, q, g in nv]
    return _table


def test_files():
    """The repository's own sample scripts (inputs only)."""
    d = os.path.join(core.REPO, "test")
    out = []
    if os.path.isdir(d):
        for r, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith(".vim") and f != "run.vim":
                    out.append((f, open(os.path.join(r, f), "rb").read().decode("utf-8", "surrogateescape")))
    return out


# ----------------------------------------------------------------- C01

TRUNC = ["function! F(a, b = 1, ...) range abort\n  let x = {'a': [1, {y -> y . 'é'}], 'b': #{k: 0zFF}}\n  return a:b[1:2]->f(\"x\\n\")\nendfunction",
         "if a ==# 'b' && !c || d > 1 ? x : y\n  echo 1 | echon 2 \" c\nelseif s:x.y\nelse\nendif",
         "try\n  call f(1, [2])\ncatch /E123:\\|[a/]/\n  throw 'x'\nfinally\n  unlet! a b.c\nendtry",
         "for [a, b; c] in d.e\n  let [x, y; z] += f{g}h\n  lockvar 3 x\n  continue\nendfor\nwhile 1\n break\nendwhile",
         "let x =<< trim END\n  a\n   b\n  END\nappend\ntext\n.\nlua << EOF\nx()\nEOF\nloadkeymap\na b",
         "silent! 3verbose 1,/x[/]y/+2 write! ++ff=dos ++enc=utf-8 >> f `=g(1)` | vimgrep /a|b/j x | redir @\"> | k a",
         "const [A, B] = [1, 2] | eval x->y({-> 1}) | echohl E | execute 'a' b 'c' | delfunction d.f",
         "let {a}b{c}[1:] .= -1.5e-3 + @a . $HOME . &l:opt %  0x1F"]


def c01(rng, deep, files=True):
    for m in (X, F):
        for s in words(["a", "(", "{", '"', "\n", "|", "\\", "1"], 0, 3):
            yield m, False, s
        for b in range(256):
            c = bytes([b]).decode("utf-8", "surrogateescape")
            for s in (c, "a" + c, c + "a", "'" + c + "'", "echo " + c, "let " + c + " = 1", "{" + c):
                yield m, b % 2 == 0, s
    for t in TRUNC:
        for k in range(len(t) + 1):
            yield F, False, t[:k]
            yield F, True, t[k:]
            yield F, False, t[:k] + t[k + 1:]
        for line in t.split("\n"):
            for k in range(len(line) + 1):
                yield X, False, line[k:]
    n = 60000 if deep else 2500
    bytes_ = [chr(c) for c in range(32, 127)] + ["\n"] * 8 + [" "] * 8 + ["|"] * 4 + ['"'] * 4 + ["é", "\udcff", "\x00", "\x16", "\r", "\t", "あ"]
    for s in rand_words(rng, bytes_, 1, 30, n):
        yield rng.choice([X, F]), rng.random() < 0.3, s
    toks = ["if ", "endif", "function ", "F(", ")", "endfunction", "let ", "x", "=", "<<", " ", "\n", "|", '"', "'", "[", "]", "{", "}", "->",
            "(", ",", ";", ".", "..", "...", "for ", "in ", "while ", "try", "catch ", "/", "finally", "endtry", "call ", "echo ", "1", "0z",
            "0x", "#{", ":", "?", "!", "%", "++", "+", "-", "*", "@", "&", "$", "a:", "s:", "\\", "trim ", "END", "`=", "`", "==", "is",
            "silent ", "append", ".", "lua ", "w ", "r ", "s", "g/", "é", "range", "unlet ", "lockvar ", "const ", "echohl ", "return",
            "break", "throw ", "execute ", "eval ", "endwhile", "endfor", "else", "elseif ", "delf ", "\udcff"]
    for s in rand_words(rng, toks, 1, 12, n):
        yield rng.choice([X, F, F]), rng.random() < 0.2, s
    for c in exprs(rng, n, 4, 0.9, odd=0.3):
        yield c
    for c in scripts(rng, n, 2, 0.9, odd=0.3):
        yield c
    for c in commands(rng, n, 0.9, odd=0.3):
        yield c
    for name, src in test_files() if files else []:
        if len(src) < 1500:
            for _ in range(30 if deep else 4):
                yield F, False, G(rng).damage(src, rng.choice([1, 2, 4]))
    for a, b in [("(", ")"), ("[", "]"), ("f(", ")"), ("a[", "]"), ("!", ""), ("-", ""), ("{'k':", "}"), ("a?b:", ""), ("a.", "b"), ("{->", "}")]:
        for k in (5, 60, 150 if deep else 90):
            yield X, False, a * k + "1" + b * k
            yield X, False, a * k
    for a, b in [("if 1\n", "endif\n"), ("while 1\n", "endwhile\n"), ("function F()\n", "endfunction\n"), ("try\n", "endtry\n"), ("for a in b\n", "endfor\n")]:
        for k in (1, 10, 60):
            yield F, False, a * k + b * k
            yield F, False, a * k + b * (k - 1)
            yield F, False, a * k + b * (k + 1)


# ----------------------------------------------------------------- C02

BLOCKWORDS = ["function F()", "endfunction", "if 1", "elseif 2", "else", "endif", "while 1", "endwhile", "for x in y", "endfor",
              "try", "catch", "finally", "endtry", "return", "break", "continue", "echo 1", '"c']
BLOCKWORDS2 = ["function! s:f(a) abort \"c", "endf", "if x | echo 1", "elsei y \"c", "el | echo 2", "en \"c", "wh 1 | wh 2", "endw", "for [a, b] in c",
               "endfo | endfo", "try | try", "cat /E1/ | echo 3", "catch /x/ \"c", "fina", "endt | endtry", "return 1 | return", "brea \"c", "con | con",
               "if 1 | endif", "while 1 | break | endwhile \"c", "finish", "silent endif", "1,2endfunction", "endif!", "endif x", "try x", "return)",
               ":if 1", "::endif", "if", "while", "for x y", "let y =<< E\nendif\nE", "append\nendif\n.", "else if 1", "finally | endtry"]
BLOCKERS = BLOCKWORDS + BLOCKWORDS2


def c02(rng, deep, files=True):
    one = [[w] for w in BLOCKERS]
    for w in BLOCKERS:
        for v in BLOCKERS:
            yield F, False, w + "\n" + v + "\n"
            if not w.startswith(('"', "append", "let")):
                yield F, False, w + " | " + v
    n = 100000 if deep else 5000
    for _ in range(n):
        k = rng.randint(3, 8)
        ws = [rng.choice(BLOCKERS if rng.random() < 0.4 else BLOCKWORDS) for _ in range(k)]
        yield F, False, "\n".join(ws)
    # legal nests, and the same with one line changed, removed, doubled or moved
    for _ in range(n):
        ls = nest(rng, rng.randint(1, 4), False, False)
        r = rng.random()
        if ls and r < 0.75:
            i, j = rng.randrange(len(ls)), rng.randrange(len(ls))
            if r < 0.2:
                ls[i] = rng.choice(BLOCKERS)
            elif r < 0.4:
                del ls[i]
            elif r < 0.55:
                ls.insert(j, ls[i])
            elif r < 0.7:
                ls[i], ls[j] = ls[j], ls[i]
            else:
                ls = ls[:i]
        sep = "\n"
        if rng.random() < 0.2 and not any('"' in l or "\n" in l for l in ls):
            sep = " | "
        yield F, False, sep.join(ls)
    for c in scripts(rng, n // 3, 3, 0.15, wide=0.0):
        yield c


def nest(rng, d, infun, inloop):
    """Lines of a legal nest of blocks."""
    c = rng.choice
    out = []
    for _ in range(c([0, 1, 1, 2, 3])):
        k = rng.randrange(9)
        b = lambda f=infun, l=inloop: nest(rng, d - 1, f, l)
        if d <= 0 or k >= 6:
            o = ["echo 1", '"c', "let x = 1", "Foo", "  call f()"]
            if infun:
                o += ["return", "return 1"]
            if inloop:
                o += ["break", "continue"]
            out.append(c(o))
        elif k == 0:
            out += [c(["if 1", "if x \"c"])] + b()
            for _ in range(c([0, 0, 1, 2])):
                out += ["elseif 2"] + b()
            if c([0, 1]):
                out += ["else"] + b()
            out.append(c(["endif", "en", "endif \"c"]))
        elif k == 1:
            out += [c(["while 1", "wh 1"])] + b(infun, True) + ["endwhile"]
        elif k == 2:
            out += [c(["for x in y", "for [a, b] in c"])] + b(infun, True) + [c(["endfor", "endfo"])]
        elif k == 3:
            out += ["try"] + b()
            for _ in range(c([0, 1, 2])):
                out += [c(["catch", "catch /E/", "cat /x"])] + b()
            if c([0, 1]):
                out += ["finally"] + b()
            out.append("endtry")
        else:
            out += [c(["function F()", "fu! s:g(a)", "function d.f() dict"])] + nest(rng, d - 1, True, False) + [c(["endfunction", "endf"])]
    return out


# ----------------------------------------------------------------- C03

LEVELS = ["||", "&&", "==", "is#", "+", ".", "..", "*", "%", "!~?", "-"]


def c03(rng, deep, files=True):
    def put(op, tight):
        if op[0].isalpha():
            return " " + op + " "
        return op if tight else " " + op + " "
    for p in BINOPS:
        for a, b in [("a", "b"), ("1", "2"), ("'s'", "x"), ("a", "-b"), ("!a", "f()")]:
            for sp in ("", " ", "\t", "  "):
                yield X, False, a + sp + p + sp + b
        yield F, False, "echo a " + p + " b"
        yield F, False, "let x = a" + p + "b" + p + "c"
        for q in BINOPS:
            yield X, False, "a" + put(p, False) + "b" + put(q, False) + "c"
            yield X, False, "a" + put(p, True) + "(b" + put(q, True) + "c)"
    for p, q, r in itertools.product(LEVELS, repeat=3):
        yield X, False, "a" + put(p, False) + "b" + put(q, False) + "c" + put(r, False) + "d"
    for p, q in itertools.product(LEVELS, repeat=2):
        yield X, False, "a ? b" + put(p, False) + "c : d" + put(q, False) + "e"
        yield X, False, "a" + put(p, False) + "b ? c : d" + put(q, False) + "e ? f : g"
        for u in ("!", "-", "+"):
            yield X, False, u + "a" + put(p, True) + u + "b" + put(q, True) + u + "c"
    for s in words(["a", "?", ":"], 1, 8 if deep else 7):
        if s.count("a") >= 2:
            yield X, False, " ".join(s)
    post = ["[1]", "(2)", ".k", "->f(3)", "[1:]", "->{x->x}(4)"]
    for u in words(["!", "-", "+", "! ", "- "], 1, 2):
        for p in words(post, 0, 2):
            yield X, False, u + "x" + p
            yield X, False, u + "(x)" + p + " * y" + p
    for p in words(post, 1, 3):
        yield X, False, "x" + p
        yield X, False, "a . x" + p
    toks = ["a", "1", "'s'", "+", "-", ".", "==", "?", ":", "(", ")", "[", "]", "!", "->f(", ",", "||", "&&", "*", "is", "..", "{", "}", "<", ">=?"]
    for t in itertools.product(toks, repeat=2):
        yield X, False, "".join(t)
        yield X, False, " ".join(t)
    trip = ["".join(t) for t in itertools.product(toks, repeat=3)] + [" ".join(t) for t in itertools.product(toks, repeat=3)]
    for s in pick(rng, trip, None if deep else 4000):
        yield X, False, s
    n = 60000 if deep else 3500
    for _ in range(n):
        sep = rng.choice(["", " ", " "])
        yield X, False, sep.join(rng.choice(toks) for _ in range(rng.randint(4, 8)))
    # operands and operators in turn, random blanks
    for _ in range(n):
        k = rng.randint(2, 7)
        s = ""
        for j in range(k):
            o = rng.choice(["a", "b", "1", "'s'", "(c)", "-d", "!e", "x[1]", "f(2)", "y.z", "k->g()", "0x1", "1.5", "isx"])
            s += o
            if j < k - 1:
                op = rng.choice(BINOPS + ["?", ":"])
                bl = rng.choice(["", " ", " ", "\t"])
                s += (bl or " ") + op + (bl or " ") if op[0].isalpha() else bl + op + bl
        yield X, False, s
    for s in ["isn't", "a isnotb", "a isb", "is is is", "a is?b", "a is ?b", "a==#b", "a == #b", "a=~?b", "a =~ ? b", "a ==?b:c", "a ? b : c ? d : e",
              "a ? b ? c : d : e", "a ?b :c", "a?b:c", "a?s:b:c", "a ? s:b : c", "a<b>c", "a < b < c", "a == b != c", "(a == b) == c", "a|b", "a||b||c",
              "a && b || c && d", "a||b&&c", "1+2*3-4", "a.b.c", "a . b . c", "a..b..c", "1 .. 2", "1.2", "1 . 2", "a.1", "a.1.b", "'a'.'b'", "a.'b'", "-1.5",
              "- - 1", "--1", "!-!a", "!a[0]", "-a.b", "-a->b()", "a ->b()", "a-> b()", "a\n->b()", "a b", "a  b c", "(a) (b)", "a\tb", "a\"b", "a|echo", "",
              " ", "(a", "a)", "a]", "a}", "a,b", "[a b]", "a = b", "a ! b", "a !", "a +", "+", "a ?", "a ? b", "a ? b :", "a ? : b"]:
        yield X, False, s
        yield F, False, "echo " + s
        yield F, False, "if " + s + "\nendif"
    for c in exprs(rng, n, 4, 0.2):
        yield c


# ----------------------------------------------------------------- C04

def c04(rng, deep, files=True):
    num = ["0", "1", "x", "b", ".", "e", "-", "_", "a", "z", "F", "+", "9"]
    n3 = list(words(num, 1, 3))
    n4 = list(words(num, 4, 5 if deep else 4))
    for s in pick(rng, ["0" + s for s in n3] + ["1" + s for s in n3], None if deep else 2200):
        yield X, False, s
    for s in pick(rng, ["0" + s for s in n4] + ["1." + s for s in n4], 60000 if deep else 1200):
        yield X, False, s
    st = ["'", '"', "\\", "a", "é", "\n", "|"]
    for q in "'\"":
        for s in words(st, 0, 3):
            yield X, False, q + s
    for s in words(["'", '"', "\\", "a"], 4, 5):
        yield X, False, s
    br = ["{", "}", "a", ":", ",", "->", "1", "'k'", "#", "[", "]", "-", " ", "(", ")", "..."]
    for s in words(br, 1, 3):
        yield X, False, "{" + s
        yield X, False, "#{" + s
    for s in rand_words(rng, br, 4, 8, 60000 if deep else 3500):
        yield X, False, rng.choice(["{", "#{", "x{", "{x", "[{", "a:{", "f({"]) + s
    for s in words(["[", "]", "a", ",", ":", " ", "1"], 1, 4):
        yield X, False, "x[" + s
    for s in pick(rng, words(["(", ")", "a", ",", " ", "[", "]", "."], 1, 4), None if deep else 1500):
        yield X, False, rng.choice(["f(", "f (", "x.f(", "x->f("]) + s
    for p in ("&", "@", "$", "&l:", "&g:", "a:", "s:", "g:", "v:", "<SID>", "<sid>", "<SNR>", "<", "#"):
        for s in words(["a", "1", ":", "#", "_", "l", "{b}", "é", "@", "é"], 0, 2):
            yield X, False, p + s
            yield X, False, "x" + p + s
    for k in (0, 1, 2, 19, 20, 21, 22):
        a = ", ".join("a%d" % j for j in range(k))
        for s in ("f(%s)", "x->f(%s)", "[%s]", "{%s -> 1}", "f(%s,)", "x->{a -> 1}(%s)", "d.f(%s)"):
            yield X, False, s % a
    for a in NUMS + BLOBS + STRS + NAMES + OPTS + ENVS + REGS:
        for f in ("%s", "(%s)", "[%s]", "{%s: 1}", "{'k': %s}", "x[%s]", "x[%s:%s]", "x[:%s]", "f(%s)", "%s[0]", "%s(0)", "%s.x", "%s->f()", "x->%s()",
                  "{-> %s}", "a{%s}b", "{%s}", "#{k: %s}", "-%s", "!%s", "%s . %s", "%s..%s", "%s ? %s : %s", "f(%s, %s)", "{ %s , b -> 1}", "x.%s", "#{%s: 1}"):
            yield X, False, f.replace("%s", a)
    n = 60000 if deep else 4000
    for c in exprs(rng, n, 4, 0.25, odd=0.25, wide=0.2):
        yield c
    g = G(rng, odd=0.2)
    for _ in range(n // 2):
        s = rng.choice([lambda: g.dict(2), lambda: g.lam(2), lambda: g.curly(2), lambda: g.string(), lambda: "[" + g.args(2) + "]",
                        lambda: g.name() + "(" + g.args(2, rng.randint(0, 5)) + ")"])()
        if rng.random() < 0.4:
            s = g.damage(s, 1)
        yield X, False, s
        yield F, False, "echo " + s


# ----------------------------------------------------------------- C05

WIDE = ["é", "あ", "😀", "\udcff", "\t", "日本", "\u00a0", "ﬁ"]


def widen(rng, s):
    """Multibyte text into strings and comments, tabs for blanks."""
    out = []
    for ch in s:
        if ch == " " and rng.random() < 0.15:
            ch = rng.choice(["\t", "  "])
        out.append(ch)
        if ch in "'\"" and rng.random() < 0.25:
            out.append(rng.choice(WIDE))
    return "".join(out)


def fold(rng, s, p=0.08):
    """Splits lines into continuation lines (text that is not split in words
    by it stays what it is)."""
    out = []
    for ch in s:
        if rng.random() < p and ch != "\n":
            out.append("\n" + rng.choice(["", " ", "\t", "   "]) + "\\")
        out.append(ch)
    return "".join(out)


def c05(rng, deep, files=True):
    n = 60000 if deep else 6500
    k = 0
    for c in itertools.chain(scripts(rng, n, 2, 0.0, wide=0.3), commands(rng, n // 2, 0.0, wide=0.3)):
        m, nv, s = c
        r = rng.random()
        if r < 0.5:
            s = widen(rng, s)
        if r < 0.7 and r > 0.25:
            s = fold(rng, s, rng.choice([0.02, 0.1]))
        if rng.random() < 0.3:
            s = "\n" * rng.randint(1, 3) + rng.choice(["", "\" é\n", "let あ = 1\n", "  \t"]) + s
        yield m, nv, s, dict(file=rng.choice(["", "f.vim", "dir/é.vim", "a b:1.vim"]))
    for m, nv, s in exprs(rng, n, 4, 0.0, wide=0.3):
        r = rng.random()
        if r < 0.5:
            s = widen(rng, s)
        if r > 0.25 and r < 0.7:
            s = fold(rng, s, 0.1)
        if r > 0.9:
            s = "\n" * (r > 0.95) + "  " + s
        yield m, nv, s
    for p in BINOPS + [".", "->f(", "[", "(", "?"]:
        for a in ("a", "'é'", "'日本'", "\"\\\"\t\"", "[é]", "(あ)"):
            e = a + " " + p + " b" + {"->f(": ")", "[": "]", "(": ")", "?": " : c"}.get(p, "")
            yield X, False, e
            yield F, False, "echo " + e + " " + e, dict(file="x")
            yield F, False, "echo 1\n\techo " + e.replace(" ", "\n  \\ ") + "\necho 2", dict(file="x")
    for t in TRUNC:
        yield F, False, t, dict(file="t.vim")
        for _ in range(40 if deep else 12):
            yield F, False, fold(rng, widen(rng, t), 0.05), dict(file="t.vim")
    for f, src in test_files() if files else []:
        if len(src) < 5000:
            yield F, False, src, dict(file=f)
    for s in FIELDPOS:
        for ind in ("", "  ", "\t", ":", " : ", "é".join(["\" ", "\n"])):
            yield F, False, ind + s, dict(file="p")
            yield F, False, "echo 'é' | " + s, dict(file="p")


# one command of every kind whose node has positions
FIELDPOS = ["echo a b", "let x = 1", "let [a, b; c] = d", "call f(1)", "return 1", "function F(a, b=1, ...)\nendfunction", "delfunction F",
            "unlet a b", "lockvar 2 a b", "unlockvar a", "if 1\nelseif 2\nelse\nendif", "while 1\n continue\n break\nendwhile", "for a in b\nendfor",
            "for [a, b; c] in d\nendfor", "try\ncatch /x/\nfinally\nendtry", "throw 1", "eval 1", "echohl X", "execute a b", "const a = 1", "set x",
            "1,2 write! ++bin x", "let x =<< E\na\nE", "let x =<< trim E\n  a\n  E", "\" c", "Foo x", "silent! 3verbose echo 1", "%s/a/b/ | g/x/d",
            "append\nx\n.", "lua << E\nx\nE", "loadkeymap\nx", "finish", "k a", "sil", "3", "let x", "let", "function", "function F", "echo", "let #{a: 1}",
            "echo #{a: 1, b-c: 2}", "echo {a -> b}", "echo {'k': v}", "echo x{y}z", "echo x[1:2] x[:] x[1:]", "echo x->y(1) x.y.z", "echo -x !y", "echo (x)"]


# ----------------------------------------------------------------- C06

def c06(rng, deep, files=True):
    base = TRUNC + FIELDPOS + ["echo 'a b' . \"c|d\" | echo 2 \" e", "\" a comment", "normal a|b \" c", "s/a b/c d/g", "map a b|c", "echo a\necho b", "a\\b",
                                "function F(a, b) abort", "e ++ff=dos +3 x y", "1,2d | 3", "let x = [1, 2] + {'a': 'b'}->c()", "silent! echo \"\\\\x\"",
                                "echo \"a\n\\b\"", "\\", "\\echo 1", "echo 1\n\n\\+ 2", "echo 1\n  \\\n  \\+ 2", "echo 1\n\" c\n\\+ 2", "echo 1\n\"\\ c\n\\+ 2",
                                "echo 1 \\\necho 2", "echo 1\n\\\\", "if 1\n\\endif", "if 1\n\\|endif", "echo 1\n\\|echo 2", "let x =<< E\na\n\\b\nE",
                                "append\na\n\\b\n.", "append\na\n\\.\n.", "lua << E\nx\n\\y\nE", "let x =<< trim E\n  a\n  \\b\n  E", "echo 1\n\u3000\\+ 2",
                                "echo 1\n\u00a0\\+ 2", "echo 1\n\x0b\\+ 2", "echo 1\n\x0c\\+2", "echo 1\n\r\\+ 2", "echo 1\r\n\\+ 2"]
    for s in base:
        yield F, False, s
        step = 1 if deep or len(s) < 90 else 2
        for k in range(0, len(s) + 1, step):
            yield F, False, s[:k] + "\n" + rng.choice(["\\", " \\", "\t \\"]) + s[k:], dict(join=s, at=k)
    n = 60000 if deep else 3000
    for c in itertools.chain(scripts(rng, n, 2, 0.1), commands(rng, n, 0.1), exprs(rng, n, 3, 0.1)):
        m, nv, s = c
        yield m, nv, fold(rng, s, rng.choice([0.03, 0.1, 0.4])), dict(join=s)
    al = ["\\", "\n", " ", "a", "|", '"', "\t", "1+"]
    for s in pick(rng, words(al, 1, 5), None if deep else 5000):
        yield F, False, "echo 1" + s
    for s in pick(rng, words(al, 1, 5), None if deep else 2000):
        yield F, False, s
        yield X, False, "x" + s


# ----------------------------------------------------------------- C07

def c07(rng, deep, files=True):
    heads = [("let x =<< E", "E"), ("let x =<< trim E", "E"), ("  let x =<< trim E", "E"), ("\tlet x =<<trim E \" c", "E"), ("let x=<<eval E", "E"),
             ("let x =<< trim eval E", "E"), ("let x =<< eval trim E", "E"), ("append", "."), ("insert", "."), ("a!", "."), ("1i", "."), ("change", "."),
             ("silent append", "."), ("lua << E", "E"), ("py <<", "."), ("py <<E", "E"), ("py3 << E", "E"), ("ruby <<  E", "E"), ("mz << E x", "E x"),
             ("perl << E", "E"), ("tcl << E", "E"), ("loadkeymap", "."), ("finish", "."), ("python x", "."), ("lua x = '<<'", "."), ("append | echo 1", "."),
             ("let [a] =<< E", "E"), ("let x.y =<< E", "E"), ("const x =<< E", "E"), ("let x .=<< E", "E"), ("let x =<< E | echo 1", "E"),
             ("let &x =<< E", "E"), ("let x =<<\tE", "E"), ("let x =<< ", ""), ("let x =<< trim", "trim"), ("let x =<< E F", "E")]
    def lines(m):
        return [m, " " + m, m + " ", "endif", "", '" c', "let x = 1", "\\x", "  a", "\ta b", "é|x", m + "x", "."]
    wraps = [("", "\necho 9"), ("if 1\n", "\nendif\necho 9"), ("function F()\n", "\nendfunction"), ("", "")]
    for h, m in heads:
        for b in itertools.product(lines(m), repeat=1):
            for w in wraps:
                yield F, False, w[0] + h + "\n" + "\n".join(b) + "\n" + m + w[1]
                yield F, False, w[0] + h + "\n" + "\n".join(b) + w[1]
        for b in pick(rng, itertools.product(lines(m), repeat=2), None if deep else 60):
            w = rng.choice(wraps)
            yield F, False, w[0] + h + "\n" + "\n".join(b) + "\n" + m + w[1]
        for b in pick(rng, itertools.product(lines(m), repeat=3), 2000 if deep else 60):
            w = rng.choice(wraps)
            yield F, False, w[0] + h + "\n" + "\n".join(b) + rng.choice(["", "\n" + m]) + w[1]
        for w in wraps:
            yield F, False, w[0] + h + w[1]
            yield F, False, w[0] + h + "\n" + m + w[1]
    # trimming: every indentation of command, body and marker
    ind = ["", " ", "  ", "\t", " \t"]
    for a, b, c in itertools.product(ind, repeat=3):
        yield F, False, a + "let x =<< trim E\n" + b + "x\n" + c + "E\nE\n  E"
        yield F, False, a + "let x =<< trim E\n" + b + "x\n\n" + b + " y\n" + c + "E"
        yield F, False, "if 1\n" + a + "let x =<< trim E\n" + b + "x\n" + c + "E\nendif"
    # the words of the =<< operator
    for s in words(["trim", "eval", " ", "E", "\"", "|", "a", "\t"], 0, 4):
        yield F, False, "let x =<<" + s + "\nbody\nE\nEa\ntrim"
    # finish in every kind of block
    for pre, post in [("", ""), ("if 1\n", "\nendif"), ("while 1\n", "\nendwhile"), ("try\n", "\nendtry"), ("function F()\n", "\nendfunction"),
                      ("for a in b\n", "\nendfor"), ("echo 1 | ", ""), ("if 1 | ", " | endif"), ("if 1\nendif\n", "")]:
        for f in ("finish", "fini", "finish | echo 1", "finish \" c", "finish x", "finish!", "silent finish", "1finish", ":finish", "finish\necho 1", "fin"):
            for tail in ("", "\nlet ((\n", "\nendif", "\nfinish"):
                yield F, False, pre + f + post + tail
    n = 60000 if deep else 2500
    g = G(rng)
    for _ in range(n):
        s = g.verbatim() + "\necho 1"
        if rng.random() < 0.4:
            s = g.damage(s, rng.choice([1, 2]))
        yield F, False, s
    for c in scripts(rng, n // 2, 2, 0.1):
        yield c


# ----------------------------------------------------------------- C08

def c08(rng, deep, files=True):
    t = table()
    for n, m, q, fl, nv in t:
        for k in range(1, len(n) + 1):
            for v in (False, True):
                yield F, v, n[:k]
                if deep or rng.random() < 0.2:
                    yield F, v, n[:k] + " x"
        for s in (n + "x", n + "1", n + "!", n + " x", n + "#a", n.upper(), n + "_"):
            if deep or rng.random() < 0.45:
                yield F, rng.random() < 0.5, s
    for p in ("s", "d", "de", "del", "k", "p", "py", "pyx", "e", "g", "F", "Foo", "&", "@", "*", "!", "=", ">", "<", "~", "#", "X", "N", "P", "Next", "Print", "Foo1", "fu", "u"):
        for s in words(["c", "g", "i", "I", "l", "p", "r", "e", "n", " ", "a", "1", "#", "!", "&", "~", "3"], 0, 2):
            yield F, False, p + s
    for s in pick(rng, words(["c", "g", "i", "I", "l", "p", "r", "e", "n", "s", "m"], 3, 4), 20000 if deep else 1500):
        yield F, False, "s" + s
    for s in pick(rng, words(["l", "p", "e", "t"], 3, 5), None if deep else 300):
        yield F, False, "d" + s
    for c in range(32, 127):
        yield F, False, chr(c)
        yield F, False, chr(c) + "x"
        yield F, False, "e" + chr(c)
        yield F, False, "Foo" + chr(c) + "x"
        yield F, True, "py" + chr(c)
    # what came before must not matter
    names = [n for n, m, q, fl, nv in t]
    fixed = ["Foo", "Foobar", "Foo2", "FooBar x", "F", "Print", "P", "Next", "N", "X", "Xx", "dl", "dp", "d", "k a", "ka", "s/a/b/", "sc", "py x", "py3 x", "tno x",
             "terminal", "rshada", "wsh", "rviminfo", "tnoremap x"]
    for _ in range(40000 if deep else 1800):
        k = rng.randint(2, 5)
        ls = []
        for _ in range(k):
            if rng.random() < 0.6:
                ls.append(rng.choice(fixed))
            else:
                n = rng.choice(names)
                ls.append(n[:rng.randint(1, len(n))] + rng.choice(["", "", " x"]))
        yield F, rng.random() < 0.4, "\n".join(ls)
    for a, b in itertools.product(fixed, repeat=2):
        yield F, False, a + "\n" + b
    for c in commands(rng, 500, 0.2):
        yield c


# ----------------------------------------------------------------- C09

def c09(rng, deep, files=True):
    g = G(rng)
    for n, m in g.MODS:
        for k in range(1, len(n) + 1):
            for s in ("%s echo 1", "%s", "%s|echo 1", "%s! echo 1", "3%s echo 1", "3 %s echo 1", "%s 3 echo 1", "%s:echo 1", "%s\" c", "%s 1,2d", "%s3 echo", ":%s w",
                      "%s %s w", "1%s"):
                yield F, False, s.replace("%s", n[:k])
    ms = [n for n, m in g.MODS] + ["silent!", "sil!", "3tab", "0tab", "15verbose", "007verbose", "verb", "99999999999999999999verbose"]
    for a, b in itertools.product(ms, repeat=2):
        yield F, False, a + " " + b + " " + rng.choice(["echo 1", "w", "call f()", "let x = 1", "1,2d", "Foo", "if 1 | endif", "", "e x", "normal x", "3", "hide", "%"])
    rt = ["1", ".", "$", "%", "'a", "/x/", "?y?", "\\/", "\\?", "\\&", "\\x", "+", "-", "2", ",", ";", " ", "*", "'", "/", "?", "/[/]/", "/a\\/b/"]
    for s in words(rt, 1, 2):
        for c in ("d", "echo 1", ""):
            yield F, False, s + c
    for s in pick(rng, words(rt, 3, 4), 60000 if deep else 3500):
        yield F, False, s + rng.choice(["d", "w", "echo 1", "", " s/a/b/", ">", "let x = 1", "call f()", "Foo", "normal x"])
    opts = ["++ff=dos", "++ff=unix", "++ff=mac", "++ff=x", "++ff=", "++ff", "++fileformat=dos", "++fileformat=", "++enc=utf-8", "++enc=", "++encoding=latin1",
            "++encoding", "++bad=keep", "++bad=drop", "++bad=x", "++bad=xx", "++bad=", "++bad", "++bin", "++nobin", "++edit", "++b", "++binx", "++edit=1", "++",
            "++x", "++p", "++enc=é", "++ff=dosx", "++bad=keepx", "++bad=é", "+", "+10", "+/x", "+/a\\ b", "+set\\ x", "+\\", "+ ", "++ff=dos++bin"]
    files = [n for n, m, q, fl, nv in table() if ("ARGOPT" in fl or "EDITCMD" in fl) and not nv]
    others = ["d", "echo", "set", "s", "buffer", "quit", "help", "Foo"]
    for o in opts:
        for c in pick(rng, files, None if deep else 12) + rng.sample(others, 3):
            yield F, False, c + " " + o + rng.choice(["", " f", " f|echo 1", " \" c"])
    for a, b in itertools.product(opts, repeat=2):
        yield F, False, rng.choice(["e", "w", "r", "new", "sp!", "saveas", "view", "find", "argedit", "wn"]) + " " + a + " " + b + rng.choice([" f", "", "f"])
    sh = [">", ">>", " ", "!", "a", "<", "++ff=unix ", "\\", "|", '"', "1"]
    for c in ("w", "up", "r", "wq", "x", "sav", ">", "<", "wn", "write", "update", "read", "1,2w", ">>", "<<", "1>"):
        for s in words(sh, 0, 2):
            yield F, False, c + s
        for s in pick(rng, words(sh, 3, 4), 3000 if deep else 60):
            yield F, False, c + s
    for n, m, q, fl, nv in table():
        yield F, nv, n + "!"
        yield F, nv, n + "! x"
        yield F, nv, "1,2" + n + " x"
        yield F, nv, "silent! " + n + " ++ff=dos +3 x"
    n = 60000 if deep else 3500
    for _ in range(n):
        s = "".join(g.mod() for _ in range(rng.choice([0, 1, 2, 3]))) + g.range() + rng.choice(["", " ", ":"]) + \
            rng.choice([lambda: rng.choice(table())[0], lambda: g.simple(), lambda: rng.choice(["w", "e", "r", "d", ">", "<", "up", "sp"])])() + \
            rng.choice(["", "!", " ! x"]) + rng.choice(["", " " + rng.choice(opts)]) + rng.choice(["", " x", " >> y", " | echo 1", " \" c"])
        if rng.random() < 0.15:
            s = g.damage(s, 1)
        yield F, rng.random() < 0.1, s


# ----------------------------------------------------------------- C10

REPS = ["normal ", "echo ", "set ", "map ", "s/", "w ", "e ", "g/", "let x=", "call f()", "Foo ", "syn match x ", "vimgrep ", "redir ", "wincmd ", "au x ", "r ", "r !",
        "w !", "help ", "@", "*", "&&", "!ls ", "quit", "unlet x", "lockvar x", "throw x", "return", "return ", "delf F", "echohl ", "exe x", "command x", "hi x ", "norm ",
        "python x", "~", "=", "#", ">", "k ", "d ", "buffer ", "so ", "file ", "vimgrep /x/ ", "lv ", "syntax ", "syn region x start=", "eval x", "const x=", "nnoremap ",
        "if 1", "else", "argdo ", "silent ", "menu ", "abbrev ", "sil! ", "filetype ", "runtime ", "redir @", "wincmd", "@\"", "*\"", "noh", "X", "1", "mark ", "sort ", "ownsyntax "]


def c10(rng, deep, files=True):
    al = ["a", " ", "|", '"', "\\", "\x16", "`", "=", "\n", "/", "1"]
    for r in REPS:
        for s in words(al, 0, 2):
            yield F, False, r + s
        for s in pick(rng, words(al, 3, 4), None if deep and len(r) < 5 else 3000 if deep else 85):
            yield F, False, r + s
        for s in rand_words(rng, al + ["`=", "x", "@", "'", "[", "]", "é", "#", "\x07", "-"], 4, 10, 500 if deep else 40):
            yield F, False, r + s
    for n, m, q, fl, nv in table():
        for s in (" a|b", " a\"b", " a\\|b \"c", " `=x|y`|z", "|x", "\"c", " a\x16|b", " a  |b"):
            if deep or rng.random() < 0.45:
                yield F, nv, n + s
    pats = ["/a|b/", "/a\"b/", "/[|]/", "/[/|]/", "#a|b#", "'a|b'", "/a\\/|b/", "/a", "a|b", "/a/ contained|x", "/a/|x", "/a/\"x", "start=/a|b/ end=/c\"d/", "/\\|/ nextgroup=x|y",
            "+a|b+", "\"a|b\"", "/a/hs=s+1,me=e|x", "/[]|]/|x", "/[^]|]/|x", "/[[:alpha:]|]/|x", "/[|", "/\\[|x", "/\\\\/|x", "/é|/|x", "!a|b!j x|y", "/a|b/gj x|y", "/a|b/f x|y"]
    for p in pats:
        for c in ("syn match X ", "syntax match X contained ", "syn region X ", "vimgrep ", "lvimgrepadd! ", "vim", "catch ", "g", "s", "syn keyword X a ", "syn match X", "syn cluster ",
                  "syn include @X ", "match X ", "2match X ", "g!", "v", "sor "):
            yield F, False, c + p
            yield F, False, "try\n" + c + p + " \" é\nendtry"
    n = 60000 if deep else 2500
    for c in commands(rng, n, 0.3):
        yield c
    g = G(rng)
    for _ in range(n):
        s = "".join(g.simple(1) + rng.choice([" | ", "|", "||", " \" c\n", "\n", "\\|", "\x16|", " |"]) for _ in range(rng.randint(1, 3))) + g.line_tail()
        yield F, False, s
    for s in words([" ", "\t", ":", "|", '"', "a", "\n"], 1, 4):
        yield F, False, s
    for s in ["\" a\n\"b\n  \"c", "\"", "\"\"", "  \" a  ", "echo 1 \"a\" \"b", "echo 1 \" a | echo 2", "let x = 1 \" a", "w \" a | b", "set x=\\\" y", "set x=\"y", ":\" c", ": \" c", "|\" c",
              "1 \" c", "1|\" c", "# c", "#! x", "#!x\necho 1", " #!x"]:
        yield F, False, s


# ----------------------------------------------------------------- C11

def c11(rng, deep, files=True):
    tk = ["a", "b", ",", " ", "=", "1", "...", ")", "a:x", "é", "(", "[2]"]
    for s in words(tk, 0, 3):
        yield F, False, "function F(" + s + "\nendfunction"
        yield F, False, "function F(" + s + ")\nendfunction"
    for s in rand_words(rng, tk + ["firstline", "lastline", "a", ", ", ",", "c = 1", "d=[1, 2]", "range", "1x", "_"], 4, 9, 60000 if deep else 4000):
        yield F, False, "function F(" + s + rng.choice(["", ")", ") abort", " )"]) + "\nendfunction"
    nm = ["F", "f", "s:f", "g:F", "g:f", "a#b", "F#b", "d.f", "d.F", "d['x']", "d[1:2]", "F{x}", "{x}", "<SID>g", "<sid>g", "<SNR>1_f", "_f", "s:", "1f", "F.g()", "f()", "b:F", "b:f",
          "é", "F é", "", "a:f", "v:f", "self.f", "x.y.z", "x[1].y", "/F", "/f/", "F/", "<f", "F G", "&x", "@a", "$X", "'x'", "(F)", "-F", "S:f", "s:F.g", "s:d.f", "Fx:y", "fx:y"]
    for n in nm:
        for h in ("function %s()\nendfunction", "function! %s(a) dict\nendfunction", "function %s", "func %s", "function  %s ()\nendfunction", "function %s\t(\nendfunction",
                  "delfunction %s", "delf! %s", "fu %s(a|b)\nendf", "function%s()\nendfunction", "%s()", "delf %s|x", "delf %s \"c", "delf %s x"):
            yield F, False, h.replace("%s", n)
    at = ["abort", "range", "dict", "closure", "x", "abor", "aborted", "Abort", "|", "\" c", "1", "!", "é", ""]
    for k in (1, 2, 3):
        for t in pick(rng, itertools.product(at, repeat=k), None if deep else 250):
            yield F, False, "function F() " + " ".join(t) + "\nendfunction"
            yield F, False, "function F()" + "".join(t) + "\nendfunction"
    for s in ("", " ", "!", " !", "!!", "|", " |echo 1", " \" c", " /x/", " /x/|echo 1", " /x\"y", " F|echo 1", " F \" c", " F(", " F()", " F() | echo 1", " {", " F(a", " F(a,", " F(a\n)", "x"):
        for h in ("function", "fu", "func", "fun", "silent function", "1,2function", "f", "function\t"):
            yield F, False, h + s
            yield F, False, h + s + "\nendfunction"
    lt = ["a", "b", ",", " ", "...", "->", "1", "}", ":", "a:x", "é", "=", "_", "{"]
    for s in words(lt, 0, 3):
        yield X, False, "{" + s
        yield X, False, "{" + s + "->1}"
    for s in rand_words(rng, lt, 3, 8, 60000 if deep else 3000):
        yield X, False, "{" + s + rng.choice(["", "->1}", "->a}", " -> x + 1 }"])
    g = G(rng, odd=0.25)
    for _ in range(60000 if deep else 3500):
        s = g.func_head() + rng.choice(["", " \" c", "|"])
        if rng.random() < 0.5:
            s = g.damage(s, rng.choice([1, 1, 2]))
        yield F, False, rng.choice(["", "", "  ", ":", "silent! "]) + s + "\n" + rng.choice(["return 1\n", "", "echo a:b\n"]) + "endfunction"


# ----------------------------------------------------------------- C12

TARGETS = ["x", "g:x", "a:x", "a:1", "l:x", "s:x", "v:x", "b:x", "x1", "foo#bar", "x[1]", "x[1:2]", "x[:]", "x[1:]", "x[:2]", "x.y", "x.y.z", "x[1].y", "x['k']", "x{y}z", "{y}", "s:{y}", "&opt", "&l:opt",
           "&g:opt", "@a", "@\"", "@/", "$HOME", "1", "'s'", "f()", "(x)", "[a]", "{'a': 1}", "-x", "x->f()", "f().x", "f()[1]", "a:", "g:", "s:", "1x", "é", "x.1", "x .y", "x [1]", "#x", "<SID>x", "", "self.x",
           "x+y", "x.y()", "x[", "x[1", "x.", "&", "@", "$", "{y", "x:y", "0x1", "1.5", "a.b.c[d].e", "{->1}", "x is", "!x", "x y"]


def c12(rng, deep, files=True):
    ops = ["=", "+=", "-=", "*=", "/=", "%=", ".=", "..=", "=<<", "==", "", "&=", "|=", "=1", "= ", " = 1", "+ = 1", "=~"]
    for t in TARGETS:
        for f in ("let %s = 1", "let %s", "let  %s=1", "const %s = 1", "const %s", "for %s in y\nendfor", "for %s y\nendfor", "unlet %s", "unlet! %s z", "unlet z %s", "lockvar %s", "lockvar 2 %s z", "lockvar! %s",
                  "unlockvar %s", "unlockvar 1 z %s", "let [%s] = y", "let [%s, z] = y", "let [z, %s; w] = y", "let [z; %s] = y", "const [%s] = y", "const [z; %s] = y", "for [%s, z] in y\nendfor", "for [z; %s] in y\nendfor",
                  "let %s += 1", "let %s ..= 1", "let %s =<< E\nE", "let %s | echo 1", "unlet %s | echo 1", "unlet %s \" c", "lockvar %s|x", "let %s \" c", "let %s=1|x", "const %s +=1", "cons %s=1 | x", "let %s %s"):
            yield F, False, f.replace("%s", t)
    for o in ops:
        for t in ("x", "x.y", "[a, b]", "&o", "@a", "$E", "x[1]", "é"):
            for v in ("1", "", " a . b", " 1 | echo 2", " 1 \" c", " y z", " '=' "):
                yield F, False, "let " + t + " " + o + v
                yield F, False, "let " + t + o + v
    lk = ["a", ",", ";", "]", " ", "b.c", "1", "[", "&x", "= y"]
    for s in words(lk, 0, 3):
        yield F, False, "let [" + s
        yield F, False, "for [" + s + " in z\nendfor"
    for s in rand_words(rng, lk, 3, 8, 60000 if deep else 3500):
        c = rng.choice(["let [%s] = y", "let [%s = y", "const [%s] = y", "const [%s]=y", "for [%s] in y\nendfor", "let [%s]", "let [%s] += 1", "for [%s]\nendfor", "let [%s] .= y", "let[%s] = 1"])
        yield F, False, c.replace("%s", s)
    for s in words(["0", "1", "2", " ", "x", "!", "99999999999999999999", "-1"], 0, 3):
        yield F, False, "lockvar" + s
        yield F, False, "unlockvar " + s
        yield F, False, "lockv " + s + " y"
        yield F, False, "unlet" + s
    for s in ("for", "for ", "for x", "for x in", "for x in ", "for x iny\nendfor", "for x in[1]\nendfor", "for xin y\nendfor", "for in in in\nendfor", "for x  in  y\nendfor", "for x\tin\ty\nendfor", "for [x]in y\nendfor",
              "for x in y z\nendfor", "for x in y | endfor", "for x in y \" c\nendfor", "for x, y in z\nendfor", "for x IN y\nendfor", "for x in y)\nendfor", "for x of y\nendfor", "let", "let ", "let!", "let|x", "let \" c",
              "let x y", "let x y z", "let g:", "let v: s:", "let x | let y", "const", "const x", "const x y", "const!", "unlet", "unlet!", "unlet |x", "unl x", "lockvar", "unlockvar", "lockvar 1", "lockv! 3 x y.z"):
        yield F, False, s
    g = G(rng, odd=0.2)
    for _ in range(60000 if deep else 4000):
        s = rng.choice([lambda: "let " + g.targets() + g.sp() + rng.choice(ops[:9]) + g.sp() + g.expr(2), lambda: "const " + g.targets() + " = " + g.expr(1),
                        lambda: "for " + g.targets() + " in " + g.expr(1) + "\nendfor", lambda: "unlet " + g.target() + " " + g.target(), lambda: "lockvar " + rng.choice(["", "2 "]) + g.target() + " " + g.target()])()
        if rng.random() < 0.4:
            s = g.damage(s, rng.choice([1, 1, 2]))
        yield F, False, g.mods() * (rng.random() < 0.1) + s + g.line_tail()


# ----------------------------------------------------------------- C16

ERRS = ["let x = ", "let x = 'a", "let x = \"a", "let x = [1, 2", "let x = {1", "let x = {'a' 1}", "let x = {'a': 1", "let x = #{a 1}", "let x = 0z1", "let x = f(", "let x = f(1", "let x = a[1", "let x = a.b(",
        "let x = a ? b", "let x = (1", "let x = 1 +", "let [a, b = 1", "let [a b] = 1", "let a: = 1", "let 1 = 2", "let x ~ 1", "call", "call x", "call f() x", "echo 'a", "echo 1 2 )", "echo a b[", "return", "endif",
        "else", "elseif 1", "endwhile", "endfor", "endtry", "catch", "finally", "break", "continue", "endfunction", "if 1", "while 1", "for a in b", "try", "function F()", "if 1\nelse\nelse\nendif",
        "if 1\nelse\nelseif 1\nendif", "try\nfinally\nfinally\nendtry", "try\nfinally\ncatch\nendtry", "if 1\nwhile 1\nendif", "function F(a, a)\nendfunction", "function F(a=1, b)\nendfunction", "function f()\nendfunction",
        "function F(1)\nendfunction", "function F(a ,b)\nendfunction", "function F() x\nendfunction", "function F(firstline)\nendfunction", "nosuchcmd", "xyz!", "quit! x", "echo! 1", "w >", "e ++x f", "1,2,\\x d", "w +x",
        "/a\\", "lockvar", "unlet", "unlet 1", "delfunction", "delfunction 1", "for x y\nendfor", "for [a b] in c\nendfor", "const a:x = 1", "const x[1] = 1", "const &x = 1", "let x =<< E", "let x =<<", "let x =<< e f\ne",
        "throw", "eval", "if", "while", "execute )", "echo {a, a -> 1}", "echo {a:b -> 1}", "echo x->1()", "echo x->f", "echo x.(", "echo &", "echo @é", "echo $", "echo `", "echo a b c ]", "echo 1 \\", "e `=1 2`", "e `=`",
        "echo f(1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21)", "wincmd", "redir @", "noh x", "endif x", "try x", "break 1", "k1", "s", "sil", "1x!"]


def c16(rng, deep, files=True):
    files = ["", "f.vim", "dir/a b.vim", "é.vim", "%s%d.vim", "a:1:2", "x\ny"]
    pre = ["", "\n", "echo 1\n", "echo 'é' | ", "  ", "\t", "if 1\n", "\" é\n\n", "function F()\n  ", "let あ = 1\n", "echo 1\n  \\ 2\n", "try | ", "echo [1,\n\\ 2] | ", "a\nx\n.\n", "let x =<< E\né\nE\n"]
    post = ["", "\n", "\necho )", " | echo 1", " \" c", "\nendif"]
    for e in ERRS:
        for p in pre:
            yield F, False, p + e + rng.choice(post), dict(file=rng.choice(files))
        for q in post:
            yield F, False, e + q, dict(file=rng.choice(files))
        for k in range(1, len(e)):
            yield F, False, e[:k], dict(file="g")
            if rng.random() < 0.3:
                yield F, False, fold(rng, e, 0.2), dict(file="g")
    # the first of two errors
    for _ in range(40000 if deep else 1500):
        yield F, False, rng.choice(pre) + rng.choice(ERRS) + rng.choice(["\n", " | "]) + rng.choice(ERRS), dict(file=rng.choice(files))
    for e in ERRS:
        m = re.match(r"(let x =|echo|call|if|return|throw) (.*)", e)
        if m:
            for p in ("", " ", "\n", "é.", "a + ", "[1, ", "\n\\", "'é' . "):
                yield X, False, p + m.group(2)
    n = 60000 if deep else 3000
    for c in itertools.chain(scripts(rng, n, 2, 1.0, odd=0.2), commands(rng, n, 1.0, odd=0.2)):
        yield c[0], c[1], c[2], dict(file=rng.choice(files))
    for c in exprs(rng, n, 3, 1.0, odd=0.3):
        yield c
    for c in exprs(rng, n // 2, 3, 0.7, odd=0.3, wide=0.3):
        yield F, False, "\" é\n echo " + fold(rng, c[2], 0.03), dict(file="e.vim")


# ----------------------------------------------------------------- C21

def c21(rng, deep, files=True):
    cmds = ["echo", "echon", "echomsg", "echoerr", "execute", "call", "return", "throw", "eval", "if", "elseif", "while", "for x in", "echohl", "catch", "ec", "exe", "cal", "th", "retu", "wh", "echom", "echoe", "ev"]

    def wrap(c, s):
        if c.startswith("retu"):
            return "function F()\n" + c + s + "\nendfunction"
        if c == "if":
            return c + s + "\nendif"
        if c.startswith("wh"):
            return c + s + "\nendwhile"
        if c.startswith("for"):
            return c + s + "\nendfor"
        if c == "elseif":
            return "if 1\n" + c + s + "\nendif"
        if c == "catch":
            return "try\n" + c + s + "\nendtry"
        return c + s
    al = ["a", "'s'", " ", "(", ")", "[1]", "-", ".", "|", '"', "f()", ",", "1", "!", "->g()", ".k", "\t", "=="]
    for c in cmds:
        for s in words(al, 0, 1 if not deep else 2):
            yield F, False, wrap(c, s)
        for s in pick(rng, words(al, 2, 2), 120):
            yield F, False, wrap(c, " " + s)
        for s in rand_words(rng, al, 2, 7, 8000 if deep else 220):
            yield F, False, wrap(c, " " + s)
    g = G(rng)
    n = 60000 if deep else 6500
    for _ in range(n):
        c = rng.choice(cmds)
        if c == "catch":
            d = rng.choice("//#!'+")
            s = " " + d + g.pattern(d) + rng.choice([d, d, "", d + " | echo 1", d + " \" c", d + "x", d + d])
        elif c.startswith("echoh") and c != "echohl" or c == "echohl":
            s = rng.choice([" Error", " ", "", " a b", " a|b", " a\"b", " a \" c", "|x", " é "])
        elif c.startswith("cal"):
            s = " " + rng.choice([g.name() + "(" + g.args(2) + ")", g.expr(2), g.name() + "(" + g.args(1) + ")" + rng.choice([".x", "[1]", "(2)", " x", "->f()"])])
        else:
            k = rng.choice([0, 1, 1, 2, 2, 3, 4])
            s = rng.choice([" ", " ", "  ", "", "\t"]) + rng.choice([" ", " ", "", "\t"]).join(g.expr(rng.choice([0, 1, 2])) for _ in range(k))
        s += rng.choice(["", "", "", " ", " | echo 1", "|x", " \" c", "\"c", " \"c\" d"])
        s = wrap(c, s)
        if rng.random() < 0.2:
            s = g.damage(s, 1)
        yield F, False, s
    pats = ["/", "//", "/a/", "/a", "/a\\/b/", "/[/]/", "/[^/]/", "/[]/]/", "/[[:alpha:]/]/", "/[[=a=]/]/", "/[[.a.]/]/", "/[[:x]/", "/[/", "/\\[/]/", "/a|b/", "/a\"b/", "#a#", "'a'", "\"a\"", "|a|", "aab", "1a1", "/^Vim(\\a\\+):E123:/", "/é/", "/\\\\/", "/\\"]
    for p in pats:
        for f in ("try\ncatch %s\nendtry", "try|catch %s|endtry", "try\ncatch %s \" c\nendtry", "try\ncat%s\nendtry", "try\ncatch %s x\nendtry", "try\ncatch  %s  \nendtry", "try\ncatch\t%s|echo 1\nendtry"):
            yield F, False, f.replace("%s", p)
