"""Scripts that stand before others.  Each is complete, so the specification
gives what comes after it the outcome it has alone, at places that are so much
later: nothing but the reader's place is left of it.  The driver puts positions
back (driver/main.go, later).  That this is so in the specification is checked
with the short ones."""
import json, re
from . import core

_table = None


def history(nvim):
    """All names and abbreviations of commands that take any text."""
    from . import cases
    t = cases.table()
    gone = [n for n, m, q, g, nv in t if nv] if nvim else []
    out = []
    mods = ("aboveleft", "belowright", "browse", "botright", "confirm", "keepmarks", "keepalt", "keepjumps", "keeppatterns", "hide", "lockmarks", "leftabove", "noautocmd", "noswapfile",
            "rightbelow", "sandbox", "silent", "tab", "topleft", "unsilent", "verbose", "vertical")
    for n, m, q, g, nv in t:
        if nv or q != "common" or not n.isalpha() or n in mods:
            continue
        for k in range(m, len(n) + 1):
            x = n[:k]
            first = next(e for e in t if e[0].startswith(x) and len(x) >= e[1])
            if first[2] != "common" or any(a.startswith(x) for a in gone) or any(w.startswith(x) and k >= 2 for w in mods):
                continue
            out.append(x)
    return list(dict.fromkeys(out))


def table():
    """(script, statements), or (what stands before, what behind, depth, and
    the same of depth one)"""
    global _table
    if _table is None:
        h = [history(False), history(True)]
        _table = [("", 0)] + SMALL + [
            ("\n".join(h[0]) + "\n", len(h[0])), ("\n".join(h[1]) + "\n", len(h[1])), ("\n" * 70000, 0), ("echo " + "aaaaaaaaa " * 6600 + "|", 1),
            ("".join("function F%d(a, b = %d)\n  if a\n    return {'k': [b, %d]}\n  endif\nendfunction\n" % (k, k, k) for k in range(300)), 300),
            ("".join("Cmd%d x\n" % k for k in range(1200)), 1200), ("\n" * 300, 0), ("\" c\n" * 600, 600),
            ("if 1|" * 30 + "let x = 1|" + "endif|" * 30, 1), ("echo '" + "あ" * 1500 + "'|", 1), ("\n" * 1100000, 0)] + BLANKS + AROUND + INSIDE
    return _table


SMALL = [("\n", 0), ("let x = 1|", 1), ("\" c\n", 1), ("let x = 'éあ'|", 1), ("fu F()\nendf\n", 1), ("if 1|echo 1|endif|", 1), (":silent! 1,2write! ++bin ++ff=dos f\n", 1), ("append\nx\n.\n", 1),
         ("let y =<< trim E\n  x\nE\n", 1), ("let x = [1,\n  \\ 2]\n", 1), ("\n\n  \t\n\n", 0), ("try|throw 'x'|catch /x/|finally|endtry\n", 1), ("Foo bar\nFooBar|\n", 2),
         ("let x = '\udcff\udcfe'|", 1), ("verbose 3 tab edit +set\\ x f | \" c\n", 2), ("lua << E\nx\nE\n", 1), ("for [a; b] in c|endfor|", 1), ("'a,/x/;$s/a/b/g\n", 1)]

BLANKS = [(" ", 0), ("\t", 0), ("  \t ", 0), (" " * 30, 0), (" " * 300, 0), ("\t" * 5000, 0), (" " * 70000, 0)]


# around expressions
AROUND = [("[[1], ", "]", 1, "[", "]"), ("[" * 30, "]" * 30, 30, "[", "]"), ("((", "))", 2, "(", ")"), ("f(a, [1, ", "])", 2, "[", "]"), ("{'k': 1, 'l': ", "}", 1, "{'k': ", "}"),
          ("[" + "a, " * 30000, "]", 1, "[", "]"), ("[" + "'é', f(1, x[2:3]), {'x': -1}, " * 4000, "]", 1, "[", "]"), ("{" + "'k': a.b, " * 8000 + "'k': ", "}", 1, "{'k': ", "}"), ("[" * 400, "]" * 400, 400, "[", "]"), ("(" * 1500, ")" * 1500, 1500, "(", ")")]


def _in(kinds, before=""):
    o = {"if": "if 1\n", "while": "while 1\n", "for": "for a in b\n", "try": "try\n", "function": "function F()\n"}
    return (before + "".join(o[k] for k in kinds), "\n" + "".join("end%s\n" % k for k in reversed(kinds)), len(kinds), o["if"], "\nendif\n")


# around scripts
INSIDE = [_in(["if"] * 2), _in(["function"]), _in(["if", "while", "if"], "echo 1\n"), _in(["try", "if"]), _in(["for"] * 3), _in(["function", "if"], "let x = 1|"),
          _in(["if"] * 140), _in(["function", "while", "for", "try", "if"] * 60), _in(["if"] * 1, "echo 1\n" * 5000), _in(["while"] * 300), _in(["function"] * 270)]


def line():
    """The table for the driver."""
    e = lambda s: core.lat(core.to_bytes(s))
    return json.dumps(dict(pres=[dict(text=e(p[0]), n=p[1]) if len(p) == 2 else dict(text=e(p[0]), close=e(p[1]), depth=p[2], open1=e(p[3]), close1=e(p[4])) for p in table()]))


ALONE = re.compile(r"(\r*\n)?[ \t]*\\|\|")    # joined with what stands before


def choose(h, c):
    """One of them, or none, for a source."""
    src, nvim = c["src"], c["nvim"]
    if not isinstance(src, str):
        src = src.decode("utf-8", "surrogateescape")
    if not src or ALONE.match(src):
        return 0
    n = len(SMALL)
    if c["mode"] == "expr":               # blanks only
        m = len(table()) - len(BLANKS) - len(AROUND) - len(INSIDE)
        if h % 16 == 3:
            return m + len(BLANKS) + h // 128 % 5
        if h % 4096 == 15:
            return m + len(BLANKS) + 5 + h // 4096 % (len(AROUND) - 5)
        return m + 4 + h // 2048 % (len(BLANKS) - 4) if h % 2048 == 7 else m + h // 8 % 4 if h % 8 < 2 else 0
    if h % 16 == 3:
        return len(table()) - len(INSIDE) + h // 128 % 6
    if h % 4096 == 15:
        return len(table()) - len(INSIDE) + 6 + h // 4096 % (len(INSIDE) - 6)
    if h % 8192 == 7:
        k = n + 3 + h // 8192 % 2         # very long ones
    elif h % 2048 == 5:
        k = n + 1 + nvim
    elif h % 1024 == 9:
        k = n + 5 + h // 1024 % 6
    else:
        k = 1 + h // 128 % n if h % 8 < 3 else 0
    # the end of a heredoc depends on the blanks its line starts with
    return 0 if k and src[0] in " \t" and not text(k).endswith("\n") else k


def million(c):
    """More lines than that stand before the source; 0 if they cannot."""
    return 0 if c["mode"] == "expr" or not c["src"] or ALONE.match(c["src"]) else len(SMALL) + 11


def text(k):
    return table()[k][0]


def close(k):
    p = table()[k]
    return p[1] if len(p) > 2 else ""
