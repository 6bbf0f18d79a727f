"""What repeats may be repeated.  TLC gives the outcomes of A B.. C with three,
four and five Bs; from them the outcome for any number is read off: lists grow
by the same items, texts by the same piece, places by the same amount.  That
this is so in the specification is checked with the outcome TLC gives for
twenty-four.  So the code can be asked about thousands."""

F, X = "file", "expr"
WIDTH = 5
AGAIN = 24                       # more than the 20 arguments a function may have, the one number in the language

# (mode, A, B, C); %d is the number of the repetition, five digits
PUMPS = [
    (X, "[", "1, ", "]"), (X, "[", "a%d, ", "b]"), (X, "[", "'é', f(x), ", "-1]"), (X, "f(", "1, ", "] "), (X, "[", "1, ", ")"), (X, "{", "'k%d': 1, ", "}"), (X, "#{", "k%d: x, ", "}"), (X, "{", "'a': [1, 2], ", "'b': )}"),
    (X, "{", "a%d, ", "z -> 1}"), (X, "{", "a%d, ", "a00001 -> 1}"), (X, "'", "ab", "'"), (X, "\"", "\\n é", "\""), (X, "'", "''", "' )"), (X, "0z", "ab", ""), (X, "", "1", ""), (X, "0x", "aF", " )"), (X, "abc", "d", ""), (X, "a", "#b", ""),
    (X, "x", "{y}", ""), (X, "x", "{y}_z", " )"), (X, "a.", "b", ""), (X, "$", "E", " ]"), (X, "&", "o", ""), (X, "1.", "5", ""), (X, "", " ", "a )"), (X, "[1,", "\t", "a )"), (X, "[", "\n\\ 1,", "]"), (X, "[", "\n  \\ é,", " )"),
    (X, "[", "\n\"\\ c", "\n\\ 1)"),
    (F, "echo", " 1", ""), (F, "echo", " a%d", " )"), (F, "echon 'x'", " 'y'", "|echo )"), (F, "execute", " a . b", ""), (F, "echomsg", " f(1)", "\nendif"),
    (F, "unlet", " x%d", ""), (F, "lockvar 2", " x.y", "\n)"), (F, "unlet!", " $E", " 1"), (F, "let [", "a%d, ", "b] = c"), (F, "let [", "a.b, ", "b; c] = c"), (F, "let [", "x, ", "&y] = )"), (F, "const [", "a%d, ", "b] = c"), (F, "for [", "a, ", "b] in c\nendfor"), (F, "let [", "x, ", "1] = a"),
    (F, "function F(", "a%d, ", "b)\nendfunction"), (F, "function F(", "a%d, ", "...) abort\nendfunction"), (F, "function F(", "a%d = 1, ", "b = 2)\nendfunction"), (F, "function F(", "a%d, ", "a00000)\nendfunction"), (F, "function F()", " abort", "\nendfunction"), (F, "call f(", "1, ", "2)"),
    (F, "", "echo 1\n", "echo )"), (F, "", "echo 1|", "let x = 2"), (F, "", "\" c\n", "echo 1"), (F, "", "\n", "echo 1"), (F, "", "silent ", "echo )"), (F, "", "silent! verbose 3 ", "write"), (F, "", ":", "echo 1"), (F, "", "1,", "2d"), (F, "", "/x/;", "$d"), (F, "1", "+2", "d"), (F, "", "call f(1)\nlet x = [2]\n", "endif"),
    (F, "if 1\n", "elseif 2\n", "endif"), (F, "if 1\n", "elseif x\necho 1\n", "else\nelse\nendif"), (F, "try\n", "catch /x/\n", "endtry"), (F, "try\n", "catch\nthrow 1\n", "finally\nendtry\nendtry"), (F, "while 1\n", "break\n", "endwhile"), (F, "for a in b\n", "continue|", "endfor"), (F, "function F()\n", "return 1\n", "endfunction\nreturn"),
    (F, "if 1\n", "if 2\nendif\n", "endif"), (F, "try\n", "if 2|endif|", "endif"), (F, "", "function F()\nendfunction\n", "endfunction"), (F, "", "try\ncatch\nendtry\n", "endtry"),
    (F, "let x =<< E\n", "a b\n", "E\necho )"), (F, "let x =<< trim E\n", "  é|\n", "E\n"), (F, "let x =<< E\n", "a%d\n", "E\n"), (F, "const [x] =<< trim E\n", "\ta%d\n", "E\necho 1"), (F, "append\n", "a%d\n", ".\necho 1"), (F, "python << E\n", "a%d\n", "E\necho 1"), (F, "let x =<<", " trim", " E\nE\n"), (F, "let x =<< E", "F", "\nx\nEF"), (F, "append\n", "x|y\n", ".\necho )"), (F, "insert\n", "é\n", ""), (F, "change\n", "\n", ".\nendif"), (F, "lua << E\n", "x = 1\n", "E\necho )"), (F, "python << E\n", "  y\n", ""), (F, "loadkeymap\n", "a b\n", ""),
    (F, "finish\n", "endif\n", ""), (F, "echo [", "\n\\ é,", "\n\\ )"), (F, "set x=", "y", " \" c"), (F, "map a ", "b|", "c"), (F, "normal ", "x|", "y"), (F, "s/", "a", "/b/|echo )"), (F, "s/a/b/", "g", "|echo )"), (F, "global/x/", "d", ""), (F, "edit +", "x", " y|echo )"), (F, "write ++enc=", "x", " y"), (F, "edit", " ++bin", " f"),
    (F, "syntax match F /", "x|", "/|echo )"), (F, "Foo ", "a|b\" ", ""), (F, "Foo", "2", " x"), (F, "autocmd A * ", "echo 1|", ""), (F, "echohl ", "N", "|echo )"), (F, "\"", " é", ""), (F, "echo 1 \"", "x|", "\necho )"), (F, "", ">", ""), (F, "1", "0", "d|echo )"), (F, "help ", "x", "|echo )"), (F, "!", "ls|", ""), (F, "vimgrep /", "x", "/ a|echo )"), (F, "catch /", "x", "/"), (F, "try\ncatch /", "x\\/", "/\nendtry"), (F, "wincmd", " ", "h|echo )"), (F, "echo 1", " ", "|echo )"), (F, "k", " ", "a"), (F, "delfunction ", "F", " |echo )"), (F, "throw [", "1, ", "2] )"), (F, "eval f(", "1, ", "2)"), (F, "return", " ", "1"),
]


def size(p, h):
    """How many, by a number."""
    if "\n" in p[2]:
        return (4200, 4099, 8200, 5000)[h % 4]
    return (1100, 300, 2100, 1030)[h % 4] if len(p[2]) > 5 or h % 3 else 4200


def source(p, n):
    b = p[2]
    mid = b * n if "%d" not in b else "".join(b.replace("%d", "%0*d" % (WIDTH, j)) for j in range(n))
    return p[1] + mid + p[3]


class No(Exception):
    pass


def blank(v, j):
    """A value of repetition j without its number."""
    if isinstance(v, str):
        return v.replace("%0*d" % (WIDTH, j), "\0")
    if isinstance(v, list):
        return [blank(x, j) for x in v]
    if isinstance(v, dict):
        return {k: blank(x, j) for k, x in v.items()}
    return v


def number(v, j):
    if isinstance(v, str):
        return v.replace("\0", "%0*d" % (WIDTH, j)) if "\0" in v else v
    if isinstance(v, list):
        return [number(x, j) for x in v]
    if isinstance(v, dict):
        return {k: number(x, j) for k, x in v.items()}
    return v


def law(a, b, c, first=3):
    """The function of n that is a, b and c at first, first + 1, first + 2."""
    if a == b == c:
        return lambda n: a
    if type(a) != type(b) or type(b) != type(c):
        raise No()
    if isinstance(a, bool):
        raise No()
    if isinstance(a, int):
        if b - a != c - b:
            raise No()
        return lambda n: a + (b - a) * (n - first)
    if isinstance(a, dict):
        if set(a) != set(b) or set(b) != set(c):
            raise No()
        fs = {k: law(a[k], b[k], c[k], first) for k in a}
        return lambda n: {k: f(n) for k, f in fs.items()}
    d = len(b) - len(a)
    if len(c) - len(b) != d or d < 0:
        raise No()
    if isinstance(a, str):
        if d == 0:
            raise No()
        for p in range(max(0, len(a) - first * d) + d + 1):
            # the piece, unnumbered
            pieces = lambda s, n: [blank(s[p + j * d:p + (j + 1) * d], j) for j in range(n)]
            q = pieces(c, first + 2)
            if len(set(q)) == 1 and all(s[:p] == a[:p] and pieces(s, n) == q[:n] and s[p + n * d:] == a[p + first * d:] for s, n in ((a, first), (b, first + 1), (c, first + 2))):
                head, tail, piece = a[:p], a[p + first * d:], q[0]
                return lambda n: head + "".join(number(piece, j) for j in range(n)) + tail if "\0" in piece else head + piece * n + tail
        # fewer than n of them: what the last one is is said otherwise
        for p in range(len(a) + 1):
            x = c[p:p + d]
            if b == a[:p] + x + a[p:] and c == a[:p] + x + x + a[p:]:
                return lambda n: a[:p] + x * (n - first) + a[p:]
        raise No()
    if d == 0:
        fs = [law(x, y, z, first) for x, y, z in zip(a, b, c)]
        return lambda n: [f(n) for f in fs]
    for lose in 0, 1, 2:               # the last of them may be said otherwise
        f = groups_law(a, b, c, d, first, first - lose)
        if f:
            return f
    raise No()


def groups_law(a, b, c, d, first, most):
    spare = len(a) - most * d
    if spare < 0:
        return None
    for h in range(spare + 1):
        t = spare - h
        for shift in range(first - most + 1):
            groups = lambda v, n: [blank(v[h + j * d:h + (j + 1) * d], j + shift) for j in range(n)]
            q = groups(c, most + 2)
            if groups(a, most) != q[:most] or groups(b, most + 1) != q[:most + 1]:
                continue
            try:
                item = law(q[0], q[1], q[2], 0)
                if any(item(j) != q[j] for j in range(most + 2)):
                    continue
                head = [law(x, y, z, first) for x, y, z in zip(a[:h], b[:h], c[:h])]
                tail = [law(x, y, z, first) for x, y, z in zip(a[len(a) - t:], b[len(b) - t:], c[len(c) - t:])] if t else []
            except No:
                continue
            return lambda n: [f(n) for f in head] + [x for j in range(n - (first - most)) for x in number(item(j), j + shift)] + [f(n) for f in tail]
    return None


LINES = ["echo 1", "let x = [1, 'é']", "call f(a)", "s/a/b/g", "Foo x|y", "set x", "\" c", "if 1|endif", "if 1\necho 2\nendif", "function F(a%d)\nendfunction", "try\ncatch\nendtry", "while 1|endwhile", "for a in b\nbreak\nendfor",
         "let x =<< E\né\nE", "append\nx\n.", "lua << E\ny\nE", "echohl N", "throw 'a'", "unlet! x y", "lockvar 2 x", "1,2d", "silent write! f", "map a b", "normal x", "\\ c", "\"\\ c", "", "  ", ":", "|", "@x", "=", "&", "<", "g/x/d", "delfunction F",
         "edit ++enc=x f", "autocmd A * echo", "syntax match F /x/", "execute 'a' b", "const [a, b] = c", "let x%d += 1", "echo a ? b : c", "echo\n\\ 1", "wincmd h", "vimgrep /x/ y", "k a", "xyzzy", "Man", "help x", "!ls", "python x", "endif", ")", "eval x", "return", "finish",
         "catch", "else", "elseif 1", "finally", "endtry", "continue", "break", "let $E = 1", "let &o .= 'x'", "let @a = 1", "let x[1] = 2", "let x.y = 2", "let [a; b] = c", "echo {'a': 1}", "echo {-> 1}", "echo \"\\<x>\"", "echo 0zAB", "echo -1.5e3"]
ITEMS = ["1", "a%d", "'é'", "\"x\\n\"", "f(x)", "a.b", "[1]", "{'a': 1}", "x[1:2]", "-1", "!x", "a ? b : c", "{-> 1}", "&o", "@a", "$E", "x{y}", "0xF", "1.5", "a->b()", "#{k: 1}", "(1)", "1 + 2", "''", "0zF", ")"]
OPS = [" + ", " . ", " .. ", " == ", " || ", " && ", " ? 1 : ", ", ", " is ", " =~# ", " - ", " * ", "->f()->", "[1][2]", " "]


def some(rng, n):
    """Others, as they come."""
    for _ in range(n):
        k = rng.randrange(6)
        w = lambda: rng.choice(ITEMS)
        l = lambda: rng.choice(LINES)
        if k == 0:
            a, b = rng.choice([("[", "]"), ("f(", ")"), ("x[f(", ")]"), ("[[", "]]"), ("a->b(", ")"), ("[", ")"), ("{z -> [", "]}"), ("{", "}")])
            yield X, a, w() + rng.choice([", ", ",", " , "]), w() + b
        elif k == 1:
            a, b = rng.choice([("{", "}"), ("[{", "}]"), ("{", ")")])
            yield X, a, w() + ": " + w() + ", ", "'z': 1" + b
        elif k == 2:
            yield F, rng.choice(["echo ", "execute ", "echon ", "unlet ", "lockvar ", "echomsg ", "let x = ", "return ", "call "]) , w() + rng.choice([" ", ", ", "\n\\ ", "\n \"\\ c\n\\ "]), w() + rng.choice(["", "|echo )", "\nendif", " \" c"])
        elif k == 3:
            a, b = rng.choice([("", ""), ("if 1\n", "endif\n"), ("function F()\n", "endfunction\n"), ("try\n", "endtry\n"), ("for a in b\n", "endfor\n"), ("while 1|", "endwhile\n"), ("", "echo )"), ("if 1\nelse\n", "\nendif"), ("try\ncatch\n", "finally\nendtry")])
            yield F, a, l() + "\n", b
        elif k == 4:
            yield F, rng.choice(["", "if 1|", "echo 0|"]), l() + "|", rng.choice(["echo )", "endif", ""])
        else:
            a, b = rng.choice([("", ""), ("if 1\n", "endif\n"), ("function F(a, b = 1)\n", "endfunction\n")])
            yield F, a, l() + "\n" + l() + "\n", b


def cases(spec, pumps, op, want=()):
    """[(pump, law)] for those that have one that TLC's outcome for AGAIN obeys."""
    cs, k = [], 0
    for p in pumps:
        for n in 3, 4, 5, AGAIN:
            k += 1
            cs.append(dict(id=k, mode=p[0], src=source(p, n)))
    so = spec.parse(cs, module="MCWalk" if op == "walk" else "MCParse", want=want)
    out = []
    for j, p in enumerate(pumps):
        v = [so.get(4 * j + i + 1) for i in range(4)]
        if None in v:
            continue
        for x in v:
            x.pop("id")
        try:
            f = law(*v[:3])
        except No:
            continue
        if f(AGAIN) == v[3]:
            out.append((p, f))
    return out
