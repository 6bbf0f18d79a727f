"""Random Vim script: expressions, commands, scripts, and damage to them.
Every choice comes from the random generator given, so a seed gives the run."""
import random

BINOPS = ["||", "&&", "==", "==?", "==#", "!=", "!=?", "!=#", ">", ">?", ">#", ">=", ">=?", ">=#", "<", "<?", "<#",
          "<=", "<=?", "<=#", "=~", "=~?", "=~#", "!~", "!~?", "!~#", "is", "is?", "is#", "isnot", "isnot?",
          "isnot#", "+", "-", ".", "..", "*", "/", "%"]
NUMS = ["0", "1", "42", "007", "0x1F", "0Xab", "0b101", "0B1", "1.5", "10.25e3", "1.5e-3", "1.0E+2", "08", "0x", "1.",
        "1.5e", "0b2", "0xg", "1.5.6", "9223372036854775808", "0o17"]
BLOBS = ["0z", "0z00", "0zFF00.1122", "0zab", "0ZAB", "0z0.0", "0z012"]
STRS = ["'a'", "''", "'it''s'", "'\\'", "'|'", "'\"'", '"a"', '""', '"\\""', '"\\\\"', '"\\n"', "\"'\"", '"|"', "'日本'",
        '"é"', "'%s'", '"%d"', "'a\tb'", '"\\<Esc>"', "' '"]
NAMES = ["a", "b", "x", "foo", "Foo", "g:x", "s:foo", "a:b", "l:x", "v:true", "b:c", "w:w", "t:t", "foo#bar", "a#b#c",
         "self", "is", "isnot", "isx", "notis", "in", "a:0", "a:000", "_x", "x1", "g:", "s:", "<SID>f", "<sid>x", "if"]
OPTS = ["&x", "&l:ts", "&g:sw", "&opt2", "&l", "&g", "&"]
ENVS = ["$HOME", "$A_1", "$"]
REGS = ["@a", "@\"", "@@", "@:", "@1", "@", "@é"]
BLANKS = ["", "", "", " ", " ", "  ", "\t"]


class G:
    def __init__(self, rng, **kw):
        self.r = rng
        self.wide = kw.get("wide", 0.08)      # chance of multibyte text
        self.odd = kw.get("odd", 0.05)        # chance of odd forms

    def c(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def sp(self):
        return self.c(BLANKS)

    def sp1(self):
        return self.c([" ", " ", " ", "  ", "\t"])

    # ------------------------------------------------------ expressions
    def name(self):
        if self.p(self.odd):
            return self.c(NAMES)
        return self.c(NAMES[:16])

    def string(self):
        if self.p(0.5):
            return self.c(STRS)
        n = self.r.randrange(6)
        if self.p(0.5):
            return "'" + "".join(self.c(["a", " ", "''", "\\", '"', "|", "b", "é", "あ", "\t", "#", "{"]) for _ in range(n)) + "'"
        return '"' + "".join(self.c(["a", " ", "\\\"", "\\\\", "'", "|", "b", "é", "あ", "\\t", "#", "\\<CR>"]) for _ in range(n)) + '"'

    def atom(self):
        k = self.r.randrange(20)
        odd = self.p(self.odd)
        if k < 7:
            return self.name()
        if k < 10:
            return self.c(NUMS if odd else NUMS[:13])
        if k == 10:
            return self.c(BLOBS if odd else BLOBS[:5])
        if k < 14:
            return self.string()
        if k == 14:
            return self.c(OPTS if odd else OPTS[:4])
        if k == 15:
            return self.c(ENVS if odd else ENVS[:2])
        if k == 16:
            return self.c(REGS if odd else REGS[:5])
        if k == 17:
            return self.c(["[]", "{}", "#{}"])
        return self.name()

    def curly(self, d):
        parts = []
        for _ in range(self.r.randrange(1, 4)):
            parts.append("{" + self.sp() + self.expr(d - 1) + self.sp() + "}" if self.p(0.6) else
                         self.c(["a", "b_", "s:", "x1", "g:y#"]))
        return "".join(parts)

    def args(self, d, n=None):
        n = self.r.randrange(4) if n is None else n
        s = ("," + self.sp()).join(self.sp() + self.expr(d - 1) + self.sp() for _ in range(n))
        if n and self.p(0.1):
            s += ","
        return s

    def dict(self, d):
        lit = self.p(0.3)
        es = []
        for _ in range(self.r.randrange(4)):
            key = self.c(["a", "b-c", "1x", "_k", "9"]) if lit else self.expr(d - 1)
            es.append(self.sp() + key + self.sp() + ":" + self.sp() + self.expr(d - 1) + self.sp())
        return ("#{" if lit else "{") + ",".join(es) + (self.c(["", ",", ", "]) if es else "") + "}"

    def lam(self, d):
        ps = [self.c(["a", "b", "x", "_"]) for _ in range(self.r.randrange(4))]
        if not self.p(self.odd):
            ps = list(dict.fromkeys(ps))
        if self.p(0.15):
            ps.append("...")
        sep = "," + self.sp()
        return "{" + self.sp() + sep.join(ps) + self.sp() + "->" + self.sp() + self.expr(d - 1) + self.sp() + "}"

    def expr(self, d):
        """An expression nested at most d deep."""
        if d <= 0:
            return self.atom()
        k = self.r.randrange(26)
        e = self.expr
        if k < 3:
            return self.atom()
        if k < 9:
            op = self.c(BINOPS)
            s = self.c([" ", " ", " ", ""]) if not op[0].isalpha() else " "
            return e(d - 1) + s + op + (s if not op[-1].isalpha() else " ") + e(d - 1)
        if k == 9:
            return e(d - 1) + self.c([" ? ", "?", " ?"]) + e(d - 1) + self.c([" : ", ":", " :", ": "]) + e(d - 1)
        if k == 10:
            return self.c(["!", "-", "+", "! ", "- "]) + e(d - 1)
        if k == 11:
            return "(" + self.sp() + e(d - 1) + self.sp() + ")"
        if k == 12:
            return e(d - 1) + "[" + self.sp() + e(d - 1) + self.sp() + "]"
        if k == 13:
            return self.atom() + "[" + self.c(["", e(d - 1)]) + self.sp() + ":" + self.sp() + self.c(["", e(d - 1)]) + "]"
        if k in (14, 15):
            return self.c([self.name(), e(d - 1)]) + self.c(["", "", "", " "]) + "(" + self.args(d) + ")"
        if k == 16:
            return e(d - 1) + "." + self.c(["x", "foo", "a1", "_b"])
        if k == 17:
            f = self.c([self.name(), self.lam(d)])
            return e(d - 1) + self.sp() + "->" + self.sp() + f + "(" + self.args(d) + ")"
        if k == 18:
            return "[" + self.args(d) + "]"
        if k in (19, 20):
            return self.dict(d)
        if k == 21:
            return self.lam(d)
        if k == 22:
            return self.curly(d)
        if k == 23:
            return self.name() + "." + self.c(["x", "foo"]) + "." + self.c(["y", "z1"])
        if k == 24:
            return self.atom() + "->" + self.name() + "(" + self.args(d) + ")"
        return e(d - 1) + self.sp() + self.c([".", ".."]) + self.sp() + e(d - 1)

    def damage(self, s, n=1):
        """Small edits: delete, insert, replace, duplicate, cut."""
        chars = list(s)
        for _ in range(n):
            k = self.r.randrange(6)
            i = self.r.randrange(len(chars) + 1)
            junk = self.c(list("()[]{}<>|&=!~?:,;.+-*/%'\"\\`#@$ \t") + ["a", "1", "\n", "é", "->", "{}", "...", "==", "is",
                          "0x", "\x00", "\x16", "\udcff", "#{", "..", "&&", "\n\\", "😀"])
            if k == 0 and chars:
                del chars[min(i, len(chars) - 1)]
            elif k in (1, 2):
                chars.insert(i, junk)
            elif k == 3 and chars:
                chars[min(i, len(chars) - 1)] = junk
            elif k == 4 and chars:
                j = min(len(chars), i + self.r.randrange(1, 6))
                chars[i:i] = chars[i:j]
            elif chars:
                if self.p(0.5):
                    del chars[i:i + self.r.randrange(1, 8)]
                else:
                    del chars[i:]
        return "".join(chars)

    # --------------------------------------------------------- commands
    MODS = [("aboveleft", 3), ("belowright", 3), ("browse", 3), ("botright", 2), ("confirm", 4), ("keepmarks", 3),
            ("keepalt", 5), ("keepjumps", 5), ("keeppatterns", 5), ("hide", 3), ("lockmarks", 3), ("leftabove", 5),
            ("noautocmd", 3), ("noswapfile", 3), ("rightbelow", 6), ("sandbox", 3), ("silent", 3), ("tab", 3),
            ("topleft", 2), ("unsilent", 3), ("vertical", 4), ("verbose", 4)]

    def abbr(self, name, m):
        return name[:self.r.randrange(m, len(name) + 1)]

    def mod(self):
        n, m = self.c(self.MODS)
        s = self.abbr(n, m)
        if n == "silent" and self.p(0.5):
            s += "!"
        if n in ("tab", "verbose") and self.p(0.5):
            s = self.c(["3", "15", "0", "99999999999999999999", "2 "]) + s
        return s + self.c([" ", " ", "  ", "\t", " :"])

    def mods(self):
        return "".join(self.mod() for _ in range(self.c([0, 0, 0, 1, 1, 2, 3])))

    def addr(self):
        return self.c(["1", "10", ".", "$", "'a", "'<", "'>", "/x/", "?y?", "/a\\/b/", "/[/]/", "\\/", "\\?", "\\&", "",
                       "/あ/", "?[^?]?"]) + self.c(["", "", "+1", "-2", "+", "-", "+3-1", " + 1", "/z/", "2", ";", "5+"])

    def range(self):
        k = self.r.randrange(10)
        if k < 4:
            return ""
        if k == 4:
            return "%"
        if k == 5:
            return self.addr()
        if k == 6:
            return "*"
        return self.addr() + self.c([",", ";", " , ", ", "]) + self.addr()

    def target(self, d=1):
        k = self.r.randrange(12)
        if k < 5:
            return self.c(NAMES[:14])
        if k == 5:
            return self.c(NAMES[:12]) + "[" + self.expr(d) + "]"
        if k == 6:
            return self.c(NAMES[:12]) + "[" + self.c(["", self.expr(d)]) + ":" + self.c(["", self.expr(d)]) + "]"
        if k == 7:
            return self.c(NAMES[:12]) + "." + self.c(["x", "foo.bar", "y[1]"])
        if k == 8:
            return self.curly(d)
        return self.c(["&x", "&l:ts", "@a", "@\"", "$HOME", "g:", "self.x", "s:d[a.b].c"])

    def targets(self, d=1):
        if self.p(0.7):
            return self.target(d)
        ts = [self.sp() + self.target(d) + self.sp() for _ in range(self.r.randrange(1, 4))]
        rest = ";" + self.sp() + self.target(d) + self.sp() if self.p(0.3) else ""
        return "[" + ",".join(ts) + rest + "]"

    def comment(self):
        return '"' + self.c(["", " c", "x|y", " \"q\"", " あ", "%s", " a\\", " 'it"])

    def pattern(self, delim="/"):
        return "".join(self.c(["a", ".*", "\\|", "\\" + delim, "[a-z]", "[" + delim + "]", "[]x]", "[^]]", "[[:alpha:]]", "^x",
                               "\\\\", "あ", " ", "|", "E123:"]) for _ in range(self.r.randrange(4)))

    def params(self):
        n = self.r.randrange(4)
        names = ["a", "b", "c", "_x", "x1", "あ"] if self.p(self.odd) else ["a", "b", "c", "_x", "x1"]
        ps = self.r.sample(names, min(n, len(names)))
        if self.p(self.odd):
            ps += [self.c(["a", "a:b", "firstline", "1", "lastline", "..."])]
        k = self.r.randrange(len(ps) + 1) if self.p(0.3) else len(ps)
        out = [p if i < k else p + self.sp() + "=" + self.sp() + self.expr(1) for i, p in enumerate(ps)]
        if self.p(0.25):
            out.append("...")
        s = self.sp() + ("," + self.sp()).join(out)
        if out and self.p(0.1) and out[-1] != "...":
            s += ","
        return s + self.sp()

    def func_head(self):
        n = self.c(["F", "Foo", "s:f", "g:F", "a#b", "d.f", "d['x']", "F{x}", "<SID>g", "<sid>X"])
        at = "".join(" " + self.c(["abort", "range", "dict", "closure"]) for _ in range(self.c([0, 0, 1, 1, 2])))
        return self.c(["function", "fu", "func"]) + self.c(["", "!"]) + " " + n + self.c(["", "", " "]) + "(" + self.params() + ")" + self.c([at, at[1:]])

    EXCMDS = ["set ts=4", "normal! gg\"a|x", "edit ++ff=dos +10 foo.txt", "w !cat", "w >>x", "r !ls", "r foo", "map a b|c",
              "nnoremap <silent> x :y<CR>", "s/a/b/g", "s/\"/x/|y", "g/x/d", "%d", "dl", "dp", "k a", "ka", "syntax match X /a|b/ contained",
              "hi X ctermfg=1", "redir @\">", "redir @a", "vimgrep /a|b/j *", "wincmd w", "wincmd ^", "autocmd A * echo 1 | echo 2",
              "command! -nargs=* Foo echo <q-args>", "Foo bar|baz", "Bar! x", "@a", "@\"", "*", "&&", "~", "=", "#", "!ls | grep \"x\"",
              ">>", "<<<", "1,2>", "py print(1)", "lua x = \"a|b\"", "help x|only", "silent! call F()", "w|q", "e `=x.\"|\"`", "sy on",
              "wincmd gf", "so %", "ru x.vim", "norm x", "file `=a`|x", "normal x|y", "new ++enc=utf-8 x", "sil", "tab 3", "3", "%",
              "echo 1 \" c", "w", "q!", "X", "noh", "redraw!", "setl x=\"y\"|z", "s", "sc", "sgi", "py3 x", "profile x", "finish"]

    def simple(self, d=2):
        """One command that opens no block."""
        k = self.r.randrange(24)
        e = self.expr
        if k == 0:
            return "let " + self.targets() + self.sp() + self.c(["=", "+=", "-=", "*=", "/=", "%=", ".=", "..="]) + self.sp() + e(d)
        if k == 1:
            return "let" + self.c(["", " ", " x", " a b", " g:"])
        if k == 2:
            return self.c(["const", "cons"]) + " " + self.targets() + " =" + self.sp() + e(d)
        if k == 3:
            return self.c(["unlet", "unl", "unlet!"]) + " " + " ".join(self.target() for _ in range(self.r.randrange(1, 4)))
        if k == 4:
            return self.c(["lockvar", "lockv", "unlockvar", "unlo", "lockvar!"]) + " " + self.c(["", "", "1 ", "3 ", "99999999999999999999 "]) + \
                " ".join(self.target() for _ in range(self.r.randrange(1, 3)))
        if k in (5, 6):
            return self.c(["echo", "ec", "echon", "echomsg", "echom", "echoerr"]) + self.c([" ", "  ", ""]) + \
                self.c([" ", "  "]).join(e(d) for _ in range(self.r.randrange(0, 4)))
        if k == 7:
            return self.c(["execute", "exe"]) + " " + " ".join(e(d) for _ in range(self.r.randrange(0, 3)))
        if k in (8, 9):
            return self.c(["call", "cal"]) + " " + self.c([self.name(), "s:x.y", "a[1]"]) + "(" + self.args(d) + ")"
        if k == 10:
            return self.c(["throw", "th", "eval"]) + " " + e(d)
        if k == 11:
            return self.c(["echohl", "echoh"]) + " " + self.c(["Error", "None", "", "あ x"])
        if k == 12:
            return self.c(["delfunction", "delf", "delf!"]) + " " + self.c(["F", "s:f", "a#b", "d.f", "F{x}"])
        if k == 13:
            return self.c(["function", "fu", "function F", "fu /x/", "function s:", "func! d.x"])
        return self.c(self.EXCMDS)

    def line_tail(self):
        return self.c(["", "", "", "", " ", " " + self.comment()])

    def heredoc(self):
        m = self.c(["END", "EOF", "X1", "_e"])
        trim = self.p(0.4)
        ind = self.c(["", "  ", "\t"])
        body = [self.c(["", "  ", "\t"]) + self.c(["text", "", "endif", "\" c", "let x = 1", m + " ", " x" + m, "end", "| x", "あ", "a\\b", "x\ty"])
                for _ in range(self.r.randrange(4))]
        last = (ind if trim and self.p(0.7) else "") + m
        op = self.sp() + "=<<" + self.c([" ", "", "  "]) + ("trim " if trim else "") + self.c(["", "", "eval "]) + m
        return "\n".join([ind + "let " + self.target() + op + self.line_tail()] + body + [last])

    def verbatim(self):
        k = self.r.randrange(5)
        body = [self.c(["text", "endif", "  x | y", "\" c", ". ", " .", "let =", "", "'", "あ", "END x"]) for _ in range(self.r.randrange(4))]
        if k == 0:
            return self.heredoc()
        if k == 1:
            return "\n".join([self.c(["append", "a", "insert", "i", "append!", "1i"])] + body + ["."])
        if k == 2:
            m = self.c(["EOF", "END", ""])
            return "\n".join([self.c(["lua", "python", "py", "ruby", "perl", "tcl", "mz", "py3"]) + " <<" + self.c(["", " "]) + m] + body + [m or "."])
        if k == 3:
            return "\n".join(["change"] + [self.c(["x", "y"])])
        return self.heredoc()

    def block(self, d, infun, inloop):
        """Lines of a block."""
        k = self.r.randrange(5)
        ind = self.c(["", "  ", "\t", " :"])
        b = lambda f=infun, l=inloop: self.body(d - 1, f, l)
        tail = self.line_tail
        if k == 0:
            out = [self.c(["if", "if!"][:1]) + " " + self.expr(1) + tail()] + b()
            for _ in range(self.c([0, 0, 1, 2])):
                out += [self.c(["elseif", "elsei"]) + " " + self.expr(1)] + b()
            if self.p(0.4):
                out += [self.c(["else", "el"]) + tail()] + b()
            return out + [self.c(["endif", "en", "end"]) + tail()]
        if k == 1:
            return [self.c(["while", "wh"]) + " " + self.expr(1)] + b(infun, True) + [self.c(["endwhile", "endw"]) + tail()]
        if k == 2:
            return ["for " + self.targets() + " in " + self.expr(1)] + b(infun, True) + [self.c(["endfor", "endfo"]) + tail()]
        if k == 3:
            out = ["try" + tail()] + b()
            for _ in range(self.c([0, 1, 2])):
                dl = self.c(["/", "/", "#", "'"])
                out += [self.c(["catch", "cat"]) + self.c(["", " " + dl + self.pattern(dl) + self.c([dl, dl, ""])]) + tail()] + b()
            if self.p(0.4):
                out += [self.c(["finally", "fina"]) + tail()] + b()
            return out + [self.c(["endtry", "endt"]) + tail()]
        return [self.func_head() + tail()] + self.body(d - 1, True, False) + [self.c(["endfunction", "endf", "endfu"])]

    def body(self, d, infun=False, inloop=False):
        out = []
        for _ in range(self.c([0, 1, 1, 2, 3])):
            k = self.r.randrange(12)
            if d > 0 and k < 5:
                ls = self.block(d, infun, inloop)
                if self.p(0.2) and not any('"' in l or "\n" in l for l in ls):
                    ls = [" | ".join(ls)]
                out += ls
            elif k == 5:
                out.append(self.sp() + self.comment())
            elif k == 6:
                out.append(self.verbatim())
            elif k == 7 and infun:
                out.append(self.c(["return", "retu"]) + self.c(["", " " + self.expr(1)]) + self.line_tail())
            elif k == 8 and inloop:
                out.append(self.c(["break", "continue", "con", "brea"]) + self.line_tail())
            else:
                s = self.mods() * (self.p(0.2)) + self.c(["", "", ":", "::"]) + self.simple()
                if self.p(0.2):
                    s += self.c(["|", " | ", "|| "]) + self.simple()
                out.append(self.sp() + s + self.line_tail())
        return out

    def script(self, d=2, n=None):
        ls = []
        for _ in range(n or self.c([1, 1, 2, 3])):
            ls += self.body(d)
        return "\n".join(ls) + self.c(["\n", "\n", ""])
