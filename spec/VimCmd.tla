------------------------------- MODULE VimCmd -------------------------------
(***************************************************************************)
(* One Ex command: modifiers, range, name, !, options, arguments, and what *)
(* may follow it on its line.                                              *)
(*                                                                         *)
(* OneCmd(i, ctx) reads the command at cell i, where ctx is the sequence   *)
(* of kinds of the open blocks, innermost first ("file" last).  Its result *)
(* is [ok, i, a]: the cell where the next command starts and the actions   *)
(* on the block stack, or [ok |-> FALSE, m, i]: the first error.           *)
(***************************************************************************)
EXTENDS VimExpr, VimCommands

CONSTANTS CtrlV, CtrlG     \* the cells that stand for CTRL-V and CTRL-G

NoArg == [lp |-> 0, cp |-> 0, ap |-> 0, cmd |-> "", flags |-> "", minlen |-> 0, parser |-> "",
          mods |-> <<>>, range |-> <<>>, force |-> FALSE, amount |-> 0, append |-> 0,
          filter |-> FALSE, bin |-> 0, edit |-> 0, ff |-> "", enc |-> "", bad |-> "", ecmd |-> ""]

\* A command node: like an expression node, with the description of the command.
Cd(k, s, c, ea) == [k |-> k, p |-> ea.cp, s |-> s, c |-> c, ea |-> ea]
Many(c) == Nd("seq", 0, <<>>, c)

Act(t, n) == [t |-> t, n |-> n]
Did(i, acts) == [ok |-> TRUE, i |-> i, a |-> acts]

Ends(i) == Ch(i) \in End \cup {"|", "\""}
SkipColon(i) == Scan(i, Blank \cup {":"})
At(i, s) == \A k \in 1..Len(s) : Ch(i + k - 1) = SubSeq(s, k, k)
LineText(i) == Text(i, LineEnd(i))
IsPrefix(s, full) == Len(s) <= Len(full) /\ SubSeq(full, 1, Len(s)) = s
First(s) == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)

(***************************************************************************)
(* Modifiers, in the order in which they are tried.                        *)
(***************************************************************************)
ModTable == << <<"aboveleft", 3>>, <<"belowright", 3>>, <<"browse", 3>>, <<"botright", 2>>,
  <<"confirm", 4>>, <<"keepmarks", 3>>, <<"keepalt", 5>>, <<"keepjumps", 5>>,
  <<"keeppatterns", 5>>, <<"hide", 3>>, <<"lockmarks", 3>>, <<"leftabove", 5>>,
  <<"noautocmd", 3>>, <<"noswapfile", 3>>, <<"rightbelow", 6>>, <<"sandbox", 3>>,
  <<"silent", 3>>, <<"tab", 3>>, <<"topleft", 2>>, <<"unsilent", 3>>, <<"vertical", 4>>,
  <<"verbose", 4>> >>

RECURSIVE ModName(_, _)
ModName(k, j) ==
  IF j > Len(ModTable) THEN ""
  ELSE IF Len(k) >= ModTable[j][2] /\ IsPrefix(k, ModTable[j][1]) THEN ModTable[j][1]
  ELSE ModName(k, j + 1)

RECURSIVE Mods(_, _)
Mods(from, acc) ==
  LET i == SkipColon(from)
      d == Scan(i, Digit)
      a == IF d > i THEN Skip(d) ELSE i
      e == Scan(a, Alpha)
      j == Skip(e)
      m == IF e = a THEN "" ELSE ModName(Text(a, e), 1)
  IN IF m = "" \/ (m = "hide" /\ Ends(j)) THEN [i |-> i, m |-> acc]
     ELSE IF m = "silent"
     THEN IF Ch(e) = "!" THEN Mods(e + 1, Append(acc, [name |-> m, bang |-> 1]))
          ELSE Mods(j, Append(acc, [name |-> m, bang |-> 0]))
     ELSE IF m = "tab" /\ d > i THEN Mods(j, Append(acc, [name |-> m, count |-> Text(i, d)]))
     ELSE IF m = "verbose"
     THEN Mods(j, Append(acc, [name |-> m, count |-> IF d > i THEN Text(i, d) ELSE "1"]))
     ELSE Mods(j, Append(acc, [name |-> m]))

(***************************************************************************)
(* Patterns: up to the delimiter outside of [..]; \x is one item.          *)
(***************************************************************************)
RECURSIVE PatEnd(_, _, _)
PatEnd(i, delim, inlist) ==
  LET c == Ch(i) IN
  IF c \in End THEN [ok |-> TRUE, e |-> i, i |-> i, closed |-> FALSE]
  ELSE IF c = delim /\ ~inlist THEN [ok |-> TRUE, e |-> i, i |-> i + 1, closed |-> TRUE]
  ELSE IF c = "\\"
  THEN IF Ch(i + 1) \in End THEN No("E682: Invalid search pattern or delimiter", i + 1)
       ELSE PatEnd(i + 2, delim, inlist)
  ELSE IF c = "[" /\ ~inlist
  THEN LET j == IF Ch(i + 1) = "^" THEN i + 2 ELSE i + 1 IN
       PatEnd(IF Ch(j) = "]" THEN j + 1 ELSE j, delim, TRUE)
  ELSE IF c = "[" /\ Ch(i + 1) \in {":", "=", "."}
  THEN LET a == Scan(i + 2, Alpha) IN
       PatEnd(IF Ch(a) = Ch(i + 1) /\ Ch(a + 1) = "]" THEN a + 2 ELSE i + 1, delim, TRUE)
  ELSE IF c = "]" THEN PatEnd(i + 1, delim, FALSE)
  ELSE PatEnd(i + 1, delim, inlist)
Pattern(i, delim) ==
  LET r == PatEnd(i, delim, FALSE) IN
  IF ~r.ok THEN r ELSE [ok |-> TRUE, i |-> r.i, v |-> Text(i, r.e), closed |-> r.closed]

(***************************************************************************)
(* Line ranges.                                                            *)
(***************************************************************************)
RECURSIVE Ints(_, _)
Ints(i, acc) ==
  LET j == Skip(i)
      e == Scan(IF Ch(j) \in {"+", "-"} THEN j + 1 ELSE j, Digit)
  IN IF e = j THEN [i |-> j, t |-> acc] ELSE Ints(e, Append(acc, Text(j, e)))

RECURSIVE Addr(_, _)
Addr(i, acc) ==
  LET j == Skip(i)
      c == Ch(j)
      More(k, t) ==
        LET n == Ints(k, t) IN
        IF Ch(n.i) \in {"/", "?"} THEN Addr(n.i, n.t) ELSE [ok |-> TRUE, i |-> n.i, t |-> n.t]
  IN CASE c \in End -> [ok |-> TRUE, i |-> j, t |-> acc]
       [] c \in {".", "$"} -> More(j + 1, Append(acc, c))
       [] c = "'" -> IF Ch(j + 1) \in End THEN [ok |-> TRUE, i |-> j + 1, t |-> acc]
                     ELSE More(j + 2, Append(acc, c \o Ch(j + 1)))
       [] c \in {"/", "?"} -> LET p == Pattern(j + 1, c) IN
                              IF ~p.ok THEN p ELSE More(p.i, Append(acc, p.v))
       [] c = "\\" -> IF Ch(j + 1) \in {"&", "?", "/"} THEN More(j + 2, Append(acc, c \o Ch(j + 1)))
                      ELSE No("E10: \\\\ should be followed by /, ? or &", j)
       [] c \in Digit -> LET e == Scan(j, Digit) IN More(e, Append(acc, Text(j, e)))
       [] OTHER -> More(j, acc)

RECURSIVE Range(_, _)
Range(i, acc) ==
  LET a == Addr(i, acc) IN
  IF ~a.ok THEN a ELSE
  LET p == Ch(a.i) \in {"%", "*"}
      j == IF p THEN a.i + 1 ELSE a.i
      t == IF p THEN Append(a.t, Ch(a.i)) ELSE a.t
  IN IF Ch(j) \in {";", ","} THEN Range(j + 1, Append(t, Ch(j)))
     ELSE [ok |-> TRUE, i |-> j, t |-> t]

(***************************************************************************)
(* Names.                                                                  *)
(***************************************************************************)
SubstAt(i) ==              \* :s with its flags: sc sg si sI sr
  LET c == Ch(i + 1) d == Ch(i + 2) e == Ch(i + 3) f == Ch(i + 4) IN
  /\ Ch(i) = "s"
  /\ \/ c \in {"g", "I"}
     \/ c = "i" /\ d \notin {"m", "l", "g"}
     \/ c = "r" /\ d # "e"
     \/ /\ c = "c" /\ d \notin {"s", "r"}
        /\ d \in End \/ e \in End \/ (e # "i" /\ (f \in End \/ f # "p"))

DelForms == {"d", "de", "del", "dele", "delet", "delete"}
Punct == {"@", "*", "!", "=", ">", "<", "&", "~", "#"}

NameAt(i) ==               \* [n, i]: the name as written, and its end
  LET Take(e) == [n |-> Text(i, e), i |-> e] IN
  IF Ch(i) = "k" THEN Take(i + 1)
  ELSE IF SubstAt(i) THEN [n |-> "substitute", i |-> i + 1]
  ELSE IF Ch(i) \in Punct THEN Take(i + 1)
  ELSE IF Ch(i) = "p" /\ Ch(i + 1) = "y" THEN Take(Scan(i, Alnum))
  ELSE LET e == Scan(i, Alpha) IN
       IF e > i /\ Ch(e - 1) \in {"l", "p"} /\ Text(i, e - 1) \in DelForms /\ Text(i, e) # "del"
       THEN Take(e - 1) ELSE Take(e)

None == [n |-> "", m |-> 0, q |-> "", g |-> "", f |-> {}]
RECURSIVE Pick(_, _, _)
Pick(tab, name, k) ==
  IF k > Len(tab) THEN None
  ELSE IF Len(name) >= tab[k].m /\ IsPrefix(name, tab[k].n) THEN tab[k]
  ELSE Pick(tab, name, k + 1)

Lookup(name) ==
  LET c == First(name)
      b == IF c \in DOMAIN CommandsBy THEN Pick(CommandsBy[c], name, 1) ELSE None
      a == Pick(NeovimAdded, name, 1)
  IN IF name = "" THEN None
     ELSE IF ~src.nvim THEN b
     ELSE IF Pick(NeovimRemoved, name, 1) # None THEN None
     ELSE IF a # None THEN a ELSE b

FindCommand(i) ==          \* [c, i]: the command (None if there is no such), its end
  LET n == NameAt(i)
      c == Lookup(n.n)
  IN IF (c = None \/ c.n = "Print") /\ First(n.n) \in Upper
     THEN LET e == Scan(n.i, Alnum) IN
          [c |-> [n |-> Text(i, e), m |-> 0, q |-> "usercmd", g |-> "USERCMD", f |-> {"USERCMD"}],
           i |-> e]
     ELSE [c |-> c, i |-> n.i]

(***************************************************************************)
(* ++opt and +cmd.                                                         *)
(***************************************************************************)
WordEnd(i) == Ch(i) \notin Word
RECURSIVE Argopt(_, _)
Argopt(i, ea) ==
  IF ~(Ch(i) = "+" /\ Ch(i + 1) = "+") THEN [ok |-> TRUE, i |-> i, ea |-> ea]
  ELSE
  LET Ff(j) == IF \E x \in {"dos", "unix", "mac"} : At(j, x) /\ WordEnd(j + Len(x))
               THEN Scan(j, Alpha) ELSE 0
      NonWhite(j) == IF Ch(j) \in Blank \cup End THEN 0     \* is there something at j?
                     ELSE CHOOSE k \in j..(LineEnd(j)) :
                            /\ Ch(k) \in Blank \cup End
                            /\ \A l \in j..(k - 1) : Ch(l) \notin Blank \cup End
      Bad(j) == IF (At(j, "keep") \/ At(j, "drop")) /\ WordEnd(j + 4) THEN j + 4
                ELSE IF Ch(j) \in Word /\ WordEnd(j + 1) THEN j + 1 ELSE 0
      Go(j, e) == Argopt(Skip(j), e)
      o == i + 2
  IN IF At(o, "bin") /\ WordEnd(o + 3) THEN Go(o + 3, [ea EXCEPT !.bin = 1])
     ELSE IF At(o, "nobin") /\ WordEnd(o + 5) THEN Go(o + 5, [ea EXCEPT !.bin = 2])
     ELSE IF At(o, "edit") /\ WordEnd(o + 4) THEN Go(o + 4, [ea EXCEPT !.edit = 1])
     ELSE IF At(o, "ff=") /\ Ff(o + 3) > 0
       THEN Go(Ff(o + 3), [ea EXCEPT !.ff = Text(o + 3, Ff(o + 3))])
     ELSE IF At(o, "fileformat=") /\ Ff(o + 11) > 0
       THEN Go(Ff(o + 11), [ea EXCEPT !.ff = Text(o + 11, Ff(o + 11))])
     ELSE IF At(o, "enc=") /\ NonWhite(o + 4) > 0
       THEN Go(NonWhite(o + 4), [ea EXCEPT !.enc = Text(o + 4, NonWhite(o + 4))])
     ELSE IF At(o, "encoding=") /\ NonWhite(o + 9) > 0
       THEN Go(NonWhite(o + 9), [ea EXCEPT !.enc = Text(o + 9, NonWhite(o + 9))])
     ELSE IF At(o, "bad=") /\ Bad(o + 4) > 0
       THEN Go(Bad(o + 4), [ea EXCEPT !.bad = Text(o + 4, Bad(o + 4))])
     ELSE No("E474: Invalid Argument", i)

RECURSIVE CmdArg(_, _)
CmdArg(i, acc) ==
  IF Ch(i) \in End \cup Blank THEN [i |-> i, v |-> acc]
  ELSE IF Ch(i) = "\\"
  THEN IF Ch(i + 1) \in End THEN [i |-> i + 1, v |-> acc] ELSE CmdArg(i + 2, acc \o Ch(i + 1))
  ELSE CmdArg(i + 1, acc \o Ch(i))

Argcmd(i, ea) ==
  IF Ch(i) # "+" THEN [i |-> i, ea |-> ea]
  ELSE IF Ch(i + 1) = " " THEN [i |-> i + 1, ea |-> [ea EXCEPT !.ecmd = "$"]]
  ELSE LET c == CmdArg(i + 1, "") IN [i |-> c.i, ea |-> [ea EXCEPT !.ecmd = c.v]]

(***************************************************************************)
(* The end of a command.                                                   *)
(***************************************************************************)
Comment(i) == [k |-> "comment", p |-> i, s |-> <<LineText(i + 1)>>, c |-> <<>>]

\* What follows a command: nothing, a bar or a comment.
Trail(i) ==
  LET j == Skip(i) c == Ch(j) IN
  CASE c = EOF -> Did(j, <<>>)
    [] c = EOL \/ c = "|" -> Did(j + 1, <<>>)
    [] c = "\"" -> Did(LineEnd(j) + 1, <<Act("add", Comment(j))>>)
    [] OTHER -> No("E488: Trailing characters: " \o c, j)

VimgrepNames == {"vimgrep", "vimgrepadd", "lvimgrep", "lvimgrepadd"}
RECURSIVE ToBlank(_)
ToBlank(i) == IF Ch(i) \in Blank \cup End THEN i ELSE ToBlank(i + 1)
SkipVimgrep(i) ==
  IF Ch(i) \in End THEN Yes(i, Nil)
  ELSE IF Ch(i) \in Word THEN Yes(ToBlank(i), Nil)
  ELSE LET p == Pattern(i + 1, Ch(i)) IN
       IF ~p.ok THEN p
       ELSE IF p.closed THEN Yes(Scan(p.i, {"g", "j"}), Nil) ELSE Yes(p.i, Nil)

\* Where a command that may be followed by another ends.  pc is the cell
\* before i (as far as it counts), last the end without trailing blanks.
RECURSIVE SepLoop(_, _, _, _, _)
SepLoop(i, pc, lastp, ea, f) ==
  LET c    == Ch(i)
      last == IF pc \in Blank THEN lastp ELSE i
      stop(j, l) == [ok |-> TRUE, i |-> j, e |-> IF "NOTRLCOM" \in f THEN j ELSE l]
      quote == /\ c = "\"" /\ "NOTRLCOM" \notin f
               /\ ~(ea.cmd \in {"@", "*"} /\ i = ea.ap)
               /\ ~(ea.cmd = "redir" /\ i = ea.ap + 1 /\ pc = "@")
  IN IF c \in End THEN stop(i, last)
     ELSE IF c = CtrlV
     THEN IF Ch(i + 1) \in End THEN stop(i + 1, i + 1)
          ELSE SepLoop(i + 2, Ch(i + 1), i + 1, ea, f)
     ELSE IF c = "`" /\ Ch(i + 1) = "=" /\ f \cap {"XFILE", "FILES", "FILE1"} # {}
     THEN LET x == Expr(i + 2) IN
          IF ~x.ok THEN x
          ELSE IF Ch(x.i) # "`"
          THEN No("unexpected character: " \o (IF Ch(x.i) \in End THEN "" ELSE Ch(x.i)), x.i)
          ELSE SepLoop(x.i + 1, "`", last, ea, f)
     ELSE IF (c = "|" \/ quote) /\ pc # "\\" THEN stop(i, last)
     ELSE SepLoop(i + 1, c, last, ea, f)

Separate(i, ea, f) ==
  IF ea.cmd \in VimgrepNames
  THEN LET p == SkipVimgrep(i) IN IF ~p.ok THEN p ELSE SepLoop(p.i, "", p.i, ea, f)
  ELSE SepLoop(i, "", i, ea, f)

Plain(e, next, ea) == Did(next, <<Act("add", Cd("excmd", <<Text(ea.lp, e)>>, <<>>, ea))>>)

\* A command whose argument is not looked into.
Common(i, ea, f) ==
  IF "TRLBAR" \in f /\ ~ea.filter
  THEN LET s == Separate(i, ea, f) IN IF ~s.ok THEN s ELSE Plain(s.e, s.i, ea)
  ELSE Plain(LineEnd(i), LineEnd(i), ea)

(***************************************************************************)
(* Verbatim text.                                                          *)
(***************************************************************************)
\* Lines from i on, up to and with the one that is the marker.
RECURSIVE LinesTo(_, _, _)
LinesTo(i, marker, acc) ==
  IF Ch(i) = EOF THEN [i |-> i, v |-> acc]
  ELSE LET e == LineEnd(i) t == Text(i, e) IN
       IF t = marker THEN [i |-> e, v |-> acc \o "\n" \o t]
       ELSE LinesTo(IF Ch(e) = EOF THEN e ELSE e + 1, marker, acc \o "\n" \o t)

Body(marker, ea) ==
  LET e == LineEnd(ea.lp)
      b == LinesTo(IF Ch(e) = EOF THEN e ELSE e + 1, marker, Text(ea.lp, e))
  IN Did(b.i, <<Act("add", Cd("excmd", <<b.v>>, <<>>, ea))>>)

NoMarker == "<EOF>"        \* no line is this: it would be five cells

RECURSIVE LinesToEnd(_, _)
LinesToEnd(i, acc) ==
  IF Ch(i) = EOF THEN [i |-> i, v |-> acc]
  ELSE LET e == LineEnd(i) IN LinesToEnd(e + 1, acc \o "\n" \o Text(i, e))
KeyMap(ea) ==
  LET b == LinesToEnd(LineEnd(ea.lp) + 1, LineText(ea.lp)) IN
  Did(b.i, <<Act("add", Cd("excmd", <<b.v>>, <<>>, ea))>>)

Script(i, ea) ==           \* :lua and the like
  LET j == Skip(i) IN
  IF At(j, "<<")
  THEN LET m == LineText(Skip(j + 2)) IN Body(IF m = "" THEN "." ELSE m, ea)
  ELSE Plain(LineEnd(i), LineEnd(i), ea)

(***************************************************************************)
(* Functions.                                                              *)
(***************************************************************************)
LvFunc(i) ==
  LET x == LvExpr(i) IN
  IF x.ok /\ x.n.k = "slice" THEN No("Invalid Expression", x.n.p) ELSE x

BadFuncName(s) ==
  LET c == First(s) IN
  c # "<" /\ c # "_" /\ c \notin Upper /\ ~HasChar(s, {":", "#"})

\* Parameters after "(": ps the names so far, ds the default values.
RECURSIVE Params(_, _, _)
Params(j, ps, ds) ==
  LET t == Tok(j)
      End1(e, p) == [ok |-> TRUE, i |-> e, ps |-> p, ds |-> ds]
  IN
  IF t.t = "ERR" THEN TokErr(t)
  ELSE IF ps = <<>> /\ ds = <<>> /\ t.t = ")" /\ Ch(j - 1) = "(" THEN End1(t.e, ps)
  ELSE IF t.t = "id" THEN
    IF ~IsArgName(t.v) \/ t.v \in {"firstline", "lastline"}
    THEN No("E125: Illegal argument: " \o t.v, t.p)
    ELSE IF \E k \in DOMAIN ps : ps[k].s[1] = t.v
    THEN No("E853: Duplicate argument name: " \o t.v, t.p)
    ELSE
    LET u == Tok(t.e) IN
    IF u.t = "ERR" THEN TokErr(u) ELSE
    LET d == IF u.t = "=" THEN Expr(u.e) ELSE Yes(t.e, Nil) IN
    IF ~d.ok THEN d
    ELSE IF u.t # "=" /\ ds # <<>>
    THEN No("E989: Non-default argument follows default argument", t.p)
    ELSE
    LET ps2 == Append(ps, Nd("ident", t.p, <<t.v>>, <<>>))
        ds2 == IF u.t = "=" THEN Append(ds, d.n) ELSE ds
        v   == Tok(d.i)
    IN IF v.t = "ERR" THEN TokErr(v)
       ELSE IF v.t = "," /\ Ch(d.i) \in Blank
       THEN No("E475: Invalid argument: White space is not allowed before comma", d.i)
       ELSE IF v.t = ","
       THEN LET w == Tok(v.e) IN
            IF w.t = "ERR" THEN TokErr(w)
            ELSE IF w.t = ")" THEN [ok |-> TRUE, i |-> w.e, ps |-> ps2, ds |-> ds2]
            ELSE Params(v.e, ps2, ds2)
       ELSE IF v.t = ")" THEN [ok |-> TRUE, i |-> v.e, ps |-> ps2, ds |-> ds2]
       ELSE TokErr(v)
  ELSE IF t.t = "..." THEN
    LET v == Tok(t.e) IN
    IF v.t = ")" THEN End1(v.e, Append(ps, Nd("ident", t.p, <<"...">>, <<>>))) ELSE TokErr(v)
  ELSE TokErr(t)

AttrNames == {"range", "abort", "dict", "closure"}
RECURSIVE Attrs(_, _)
Attrs(i, acc) ==
  LET j == Skip(i) e == Scan(j, Alpha) k == Text(j, e) IN
  IF k = "" THEN [ok |-> TRUE, i |-> j, a |-> acc]
  ELSE IF k \in AttrNames THEN Attrs(e, acc \cup {k})
  ELSE No("unexpected token: " \o k, j)

AttrSeq(a) == (IF "range" \in a THEN <<"range">> ELSE <<>>) \o
              (IF "abort" \in a THEN <<"abort">> ELSE <<>>) \o
              (IF "dict" \in a THEN <<"dict">> ELSE <<>>) \o
              (IF "closure" \in a THEN <<"closure">> ELSE <<>>)

Function(i, ea, f) ==
  LET j == Skip(i) IN
  IF Ends(j) \/ Ch(j) = "/" THEN Common(i, ea, f)
  ELSE LET x == LvFunc(j) IN
       IF ~x.ok THEN x
       ELSE IF x.n.k = "ident" /\ BadFuncName(x.n.s[1])
       THEN No("E128: Function name must start with a capital or contain a colon: " \o x.n.s[1], x.n.p)
       ELSE LET o == Skip(x.i) IN
            IF Ch(o) # "(" THEN Common(i, ea, f)
            ELSE LET ps == Params(o + 1, <<>>, <<>>) IN
                 IF ~ps.ok THEN ps
                 ELSE LET at == Attrs(ps.i, {}) IN
                      IF ~at.ok THEN at
                      ELSE Did(at.i, <<Act("open", Cd("function", AttrSeq(at.a),
                                           <<x.n, Many(ps.ps), Many(ps.ds)>>, ea))>>)

(***************************************************************************)
(* Assignments.                                                            *)
(***************************************************************************)
Scopes == {"v", "g", "s", "l", "a", "b", "w", "t"}
IsVarName(s) ==
  LET scoped == Len(s) >= 2 /\ SubSeq(s, 1, 1) \in Scopes /\ SubSeq(s, 2, 2) = ":"
      rest   == IF scoped THEN SubSeq(s, 3, Len(s)) ELSE s
  IN (scoped /\ rest = "") \/
     (First(rest) \in Word1 /\ \A k \in 1..Len(rest) : SubSeq(rest, k, k) \in Word \cup {"#"})

Lvalue(i) ==
  LET x == LvExpr(i) IN
  IF x.ok /\ x.n.k = "ident" /\ ~IsVarName(x.n.s[1])
  THEN No("E461: Illegal variable name: " \o x.n.s[1], x.n.p) ELSE x

ConstLvalue(i) ==
  LET x == Lvalue(i) IN
  IF ~x.ok THEN x
  ELSE IF x.n.k \in {"subscript", "slice", "dot"} THEN No("E996: Cannot lock a list or dict", x.n.p)
  ELSE IF x.n.k = "lit" THEN
    No(CASE x.n.s[1] = "OPTION" -> "E996: Cannot lock an option"
         [] x.n.s[1] = "ENV"    -> "E996: Cannot lock an environment variable"
         [] OTHER               -> "E996: Cannot lock a register", x.n.p)
  ELSE x

\* The target of an assignment: [left, list, rest] in n.
RECURSIVE TargetList(_, _)
TargetList(i, acc) ==
  LET x == Lvalue(i)
      Bad(t) == IF t.t = "ERR" THEN TokErr(t) ELSE No("E475 Invalid argument: " \o t.v, t.p)
  IN IF ~x.ok THEN x ELSE
     LET t == Tok(x.i) more == Append(acc, x.n) IN
     IF t.t = "]" THEN [ok |-> TRUE, i |-> t.e, n |-> <<Nil, Many(more), Nil>>]
     ELSE IF t.t = "," THEN TargetList(t.e, more)
     ELSE IF t.t = ";"
     THEN LET r == Lvalue(t.e) IN
          IF ~r.ok THEN r ELSE
          LET u == Tok(r.i) IN
          IF u.t = "]" THEN [ok |-> TRUE, i |-> u.e, n |-> <<Nil, Many(more), r.n>>] ELSE Bad(u)
     ELSE Bad(t)
Target(i, const) ==
  LET t == Tok(i) IN
  IF t.t = "ERR" THEN TokErr(t)
  ELSE IF t.t = "[" THEN TargetList(t.e, <<>>)
  ELSE LET x == IF const THEN ConstLvalue(i) ELSE Lvalue(i) IN
       IF ~x.ok THEN x ELSE [ok |-> TRUE, i |-> x.i, n |-> <<x.n, Many(<<>>), Nil>>]

Word0(i) == Scan(i, Word)
RECURSIVE HereHead(_, _)
HereHead(i, flags) ==      \* modifiers and marker
  LET j == Skip(i) e == Word0(j) IN
  IF e = j THEN No("E172: Missing marker", j)
  ELSE IF Ch(j) \in Lower
  THEN HereHead(e, Append(flags, Nd("lit", j, <<"STRING", Text(j, e)>>, <<>>)))
  ELSE [ok |-> TRUE, i |-> e, m |-> Text(j, e), f |-> flags]

RECURSIVE LineStart(_)
LineStart(i) == IF i = 1 \/ Ch(i - 1) = EOL THEN i ELSE LineStart(i - 1)
Indent(i) == LET s == LineStart(i) IN Text(s, Skip(s))

RECURSIVE HereBody(_, _, _, _)
HereBody(i, m, m2, acc) ==
  IF Ch(i) = EOF THEN No("E990: Missing end marker '" \o m \o "'", i)
  ELSE LET e == LineEnd(i) t == Text(i, e) IN
       IF t = m \/ t = m2 THEN [ok |-> TRUE, i |-> e, n |-> acc]
       ELSE HereBody(e + 1, m, m2, Append(acc, Nd("lit", i, <<"STRING", t>>, <<>>)))

\* :let target =<< ...; p is the cell of the operator.
Heredoc(p, target, ea) ==
  LET h == HereHead(p + 3, <<>>) IN
  IF ~h.ok THEN h ELSE
  LET t == Trail(h.i) IN
  IF ~t.ok THEN t ELSE
  LET trim == \E k \in DOMAIN h.f : h.f[k].s[2] = "trim"
      b == HereBody(t.i, h.m, IF trim THEN Indent(ea.lp) \o h.m ELSE h.m, <<>>)
  IN IF ~b.ok THEN b
     ELSE Did(b.i, <<Act("add", Cd("let", <<"=<<">>,
                     target \o <<Nd("heredoc", p, <<h.m>>, <<Many(h.f), Many(b.n)>>)>>, ea))>> \o t.a)

AssignOp(i) ==             \* the assignment operator at i, "" if there is none
  IF Ends(i) THEN ""
  ELSE IF At(i, "..=") THEN "..="
  ELSE IF At(i, "=<<") THEN "=<<"
  ELSE IF Ch(i + 1) = "=" /\ Ch(i) \in {"+", "-", ".", "*", "/", "%"} THEN Ch(i) \o "="
  ELSE IF Ch(i) = "=" THEN "=" ELSE ""

Let(i, ea, f) ==
  LET j == Skip(i) IN
  IF Ends(j) THEN Common(i, ea, f)
  ELSE LET t == Target(j, FALSE) IN
       IF ~t.ok THEN t ELSE
       LET o == Skip(t.i) op == AssignOp(o) IN
       IF op = "" THEN Common(i, ea, f)
       ELSE IF op = "=<<" THEN Heredoc(o, t.n, ea)
       ELSE LET r == Expr(o + Len(op)) IN
            IF ~r.ok THEN r
            ELSE Did(r.i, <<Act("add", Cd("let", <<op>>, t.n \o <<r.n>>, ea))>>)

Const(i, ea, f) ==
  LET j == Skip(i) IN
  IF Ends(j) THEN Common(i, ea, f)
  ELSE LET t == Target(j, TRUE) IN
       IF ~t.ok THEN t ELSE
       LET o == Skip(t.i) IN
       IF Ch(o) # "=" THEN Common(i, ea, f)
       ELSE LET r == Expr(o + 1) IN
            IF ~r.ok THEN r
            ELSE Did(r.i, <<Act("add", Cd("let", <<"=">>, t.n \o <<r.n>>, ea))>>)

\* Arguments of :unlet and :lockvar: an expression and then names.
RECURSIVE NameList(_, _)
NameList(i, acc) ==
  LET j == Skip(i) IN
  IF acc # <<>> /\ Ends(j) THEN Yes(j, acc)
  ELSE LET x == IF acc = <<>> THEN Expr(j) ELSE Lvalue(j) IN
       IF ~x.ok THEN x ELSE NameList(x.i, Append(acc, x.n))

\* Arguments of :echo and the like: expressions up to the end of the command.
RECURSIVE ExprList(_, _)
ExprList(i, acc) ==
  LET j == Skip(i) IN
  IF Ends(j) /\ Ch(j) # "\"" THEN Yes(j, acc)
  ELSE LET x == Expr(j) IN IF ~x.ok THEN x ELSE ExprList(x.i, Append(acc, x.n))

(***************************************************************************)
(* Commands by the way their argument is read.                             *)
(***************************************************************************)
InLoop(ctx) ==             \* inside a loop of the same function
  \E k \in DOMAIN ctx : ctx[k] \in {"while", "for"} /\ \A l \in 1..k : ctx[l] # "function"
InFunction(ctx) == \E k \in DOMAIN ctx : ctx[k] = "function"

Missing(top, what, i) ==   \* the error for leaving top open, if any
  CASE top = "function" -> No("E126: Missing :endfunction:    " \o what, i)
    [] top \in {"if", "elseif", "else"} -> No("E171: Missing :endif:    " \o what, i)
    [] top \in {"try", "catch", "finally"} -> No("E600: Missing :endtry:    " \o what, i)
    [] top = "while" -> No("E170: Missing :endwhile:    " \o what, i)
    [] top = "for" -> No("E170: Missing :endfor:    " \o what, i)
    [] OTHER -> Yes(i, Nil)

WithExpr(i, ea, kind, act) ==
  LET x == Expr(i) IN IF ~x.ok THEN x ELSE Did(x.i, <<Act(act, Cd(kind, <<>>, <<x.n>>, ea))>>)
WithList(i, ea, kind, s) ==
  LET x == ExprList(i, <<>>) IN IF ~x.ok THEN x ELSE Did(x.i, <<Act("add", Cd(kind, s, x.n, ea))>>)
Bare(i, ea, kind, act) == Did(i, <<Act(act, Cd(kind, <<>>, <<>>, ea))>>)
Names(i, ea, kind, s) ==
  LET x == NameList(i, <<>>) IN IF ~x.ok THEN x ELSE Did(x.i, <<Act("add", Cd(kind, s, x.n, ea))>>)

RECURSIVE SynEnd(_)
SynEnd(i) ==
  LET c == Ch(i) IN
  IF c \in {"/", "'", "\""}
  THEN LET p == Pattern(i + 1, c) IN IF ~p.ok THEN p ELSE SynEnd(p.i)
  ELSE IF c = "="
  THEN LET p == Pattern(i + 1, " ") IN IF ~p.ok THEN p ELSE SynEnd(p.i)
  ELSE IF Ends(i) THEN Yes(i, Nil) ELSE SynEnd(i + 1)

Wincmd(i, ea) ==
  LET c == Ch(i) d == Ch(i + 1)
      two == c \in {"g", CtrlG}
      e == IF two THEN i + 2 ELSE i + 1
      j == Skip(e)
  IN IF c \in End THEN No("E471: Argument required", i)
     ELSE IF two /\ d \in End THEN No("E474: Invalid Argument", i + 1)
     ELSE IF two /\ d \in Blank THEN No("E474: Invalid Argument", i + 2)
     ELSE IF ~Ends(j) THEN No("E474: Invalid Argument", j)
     ELSE Plain(e, j, ea)

RECURSIVE ToEnds(_)
ToEnds(i) == IF Ends(i) THEN i ELSE ToEnds(i + 1)

Dispatch(i, ea, c, ctx) ==
  LET top == ctx[1] q == c.q f == c.f cp == ea.cp IN
  CASE q \in {"common", "usercmd"} -> Common(i, ea, f)
    [] q \in {"append", "insert"} -> Body(".", ea)
    [] q = "loadkeymap" -> KeyMap(ea)
    [] q \in {"lua", "mzscheme", "perl", "python", "python3", "ruby", "tcl"} -> Script(i, ea)
    [] q = "finish" ->
         LET r == Common(i, ea, f) IN
         IF r.ok /\ top = "file" THEN [r EXCEPT !.i = N + 1] ELSE r
    [] q = "function" -> Function(i, ea, f)
    [] q = "endfunction" ->
         IF top \in {"if", "elseif", "else", "try", "catch", "finally", "while", "for"}
         THEN Missing(top, "ENDFUNCTION", cp)
         ELSE IF top # "function" THEN No("E193: :endfunction not inside a function", cp)
         ELSE Bare(LineEnd(i), ea, "endfunction", "close")
    [] q = "delfunction" ->
         LET x == LvFunc(i) IN
         IF ~x.ok THEN x ELSE Did(x.i, <<Act("add", Cd("delfunction", <<>>, <<x.n>>, ea))>>)
    [] q = "return" ->
         IF ~InFunction(ctx) THEN No("E133: :return not inside a function", cp)
         ELSE LET j == Skip(i) IN
              IF Ends(j) /\ Ch(j) # "\""
              THEN Did(j, <<Act("add", Cd("return", <<>>, <<Nil>>, ea))>>)
              ELSE WithExpr(j, ea, "return", "add")
    [] q = "call" ->
         LET j == Skip(i) IN
         IF Ends(j) THEN No("E471: Argument required", j)
         ELSE LET x == Expr(j) IN
              IF ~x.ok THEN x
              ELSE IF x.n.k # "call" THEN No("Not an function call", x.n.p)
              ELSE Did(x.i, <<Act("add", Cd("excall", <<>>, <<x.n>>, ea))>>)
    [] q = "let" -> Let(i, ea, f)
    [] q = "const" -> Const(i, ea, f)
    [] q = "unlet" -> Names(i, ea, "unlet", <<>>)
    [] q \in {"lockvar", "unlockvar"} ->
         LET j == Skip(i) d == Scan(j, Digit) IN
         Names(d, ea, q, <<IF d > j THEN Text(j, d) ELSE "0">>)
    [] q = "if" -> WithExpr(i, ea, "if", "open")
    [] q = "elseif" ->
         IF top \notin {"if", "elseif"} THEN No("E582: :elseif without :if", cp)
         ELSE WithExpr(i, ea, "elseif", "clause")
    [] q = "else" ->
         IF top \notin {"if", "elseif"} THEN No("E581: :else without :if", cp)
         ELSE Bare(i, ea, "else", "clause")
    [] q = "endif" ->
         IF top \notin {"if", "elseif", "else"} THEN No("E580: :endif without :if", cp)
         ELSE Bare(i, ea, "endif", "close")
    [] q = "while" -> WithExpr(i, ea, "while", "open")
    [] q = "endwhile" ->
         IF top # "while" THEN No("E588: :endwhile without :while", cp)
         ELSE Bare(i, ea, "endwhile", "close")
    [] q = "for" ->
         LET t == Target(i, FALSE) IN
         IF ~t.ok THEN t ELSE
         LET j == Skip(t.i) e == Scan(j, Alpha) IN
         IF Text(j, e) # "in" THEN No("Missing \"in\" after :for", j)
         ELSE LET r == Expr(e) IN
              IF ~r.ok THEN r
              ELSE Did(r.i, <<Act("open", Cd("for", <<>>, t.n \o <<r.n>>, ea))>>)
    [] q = "endfor" ->
         IF top # "for" THEN No("E588: :endfor without :for", cp)
         ELSE Bare(i, ea, "endfor", "close")
    [] q = "continue" ->
         IF ~InLoop(ctx) THEN No("E586: :continue without :while or :for", cp)
         ELSE Bare(i, ea, "continue", "add")
    [] q = "break" ->
         IF ~InLoop(ctx) THEN No("E587: :break without :while or :for", cp)
         ELSE Bare(i, ea, "break", "add")
    [] q = "try" -> Bare(i, ea, "try", "open")
    [] q = "catch" ->
         IF top = "finally" THEN No("E604: :catch after :finally", cp)
         ELSE IF top \notin {"try", "catch"} THEN No("E603: :catch without :try", cp)
         ELSE LET j == Skip(i) IN
              IF Ends(j) THEN Did(j, <<Act("clause", Cd("catch", <<"">>, <<>>, ea))>>)
              ELSE LET p == Pattern(j + 1, Ch(j)) IN
                   IF ~p.ok THEN p ELSE Did(p.i, <<Act("clause", Cd("catch", <<p.v>>, <<>>, ea))>>)
    [] q = "finally" ->
         IF top \notin {"try", "catch"} THEN No("E606: :finally without :try", cp)
         ELSE Bare(i, ea, "finally", "clause")
    [] q = "endtry" ->
         IF top \notin {"try", "catch", "finally"} THEN No("E602: :endtry without :try", cp)
         ELSE Bare(i, ea, "endtry", "close")
    [] q \in {"throw", "eval"} -> WithExpr(i, ea, q, "add")
    [] q \in {"echo", "echon", "echomsg", "echoerr"} -> WithList(i, ea, "echocmd", <<ea.cmd>>)
    [] q = "echohl" -> Did(ToEnds(i), <<Act("add", Cd("echohl", <<Text(i, ToEnds(i))>>, <<>>, ea))>>)
    [] q = "execute" -> WithList(i, ea, "execute", <<>>)
    [] q = "wincmd" -> Wincmd(i, ea)
    [] q = "syntax" -> LET s == SynEnd(i) IN IF ~s.ok THEN s ELSE Plain(s.i, s.i, ea)

\* :write, :read, < and >: what comes before the argument proper.
Special(i, ea) ==
  IF ea.cmd \in {"write", "update"}
  THEN IF Ch(i) = ">"
       THEN IF Ch(i + 1) # ">" THEN No("E494: Use w or w>>", ea.cp)
            ELSE [ok |-> TRUE, i |-> Skip(i + 2), ea |-> [ea EXCEPT !.append = 1]]
       ELSE IF Ch(i) = "!" /\ ea.cmd = "write"
       THEN [ok |-> TRUE, i |-> i + 1, ea |-> [ea EXCEPT !.filter = TRUE]]
       ELSE [ok |-> TRUE, i |-> i, ea |-> ea]
  ELSE IF ea.cmd = "read" /\ ea.force
  THEN [ok |-> TRUE, i |-> i, ea |-> [ea EXCEPT !.filter = TRUE, !.force = FALSE]]
  ELSE IF ea.cmd = "read" /\ Ch(i) = "!"
  THEN [ok |-> TRUE, i |-> i + 1, ea |-> [ea EXCEPT !.filter = TRUE]]
  ELSE IF ea.cmd \in {"<", ">"}
  THEN LET e == Scan(i, {ea.cmd}) IN
       [ok |-> TRUE, i |-> Skip(e), ea |-> [ea EXCEPT !.amount = 1 + e - i]]
  ELSE [ok |-> TRUE, i |-> i, ea |-> ea]

\* The command proper; from is the cell after modifiers and range.
Command(from, ea0, ctx) ==
  LET i  == SkipColon(from)
      e1 == [ea0 EXCEPT !.cp = i]
  IN IF Ch(i) \in End \cup {"\""}
     THEN IF ea0.mods = <<>> /\ ea0.range = <<>> THEN Did(i, <<>>) ELSE Plain(i, i, e1)
     ELSE
     LET fc == FindCommand(i) c == fc.c
         bang == Ch(fc.i) = "!" /\ c.n \notin {"substitute", "smagic", "snomagic"}
         j  == IF bang THEN fc.i + 1 ELSE fc.i
         a  == IF c.n = "!" THEN j ELSE Skip(j)
         e2 == [e1 EXCEPT !.cmd = c.n, !.flags = c.g, !.minlen = c.m, !.parser = c.q,
                          !.force = bang, !.ap = a]
     IN IF c = None THEN No("E492: Not an editor command: " \o LineText(i), i)
        ELSE IF bang /\ c.f \cap {"BANG", "USERCMD"} = {} THEN No("E477: No ! allowed", i)
        ELSE
        LET o == IF "ARGOPT" \in c.f THEN Argopt(a, e2) ELSE [ok |-> TRUE, i |-> a, ea |-> e2] IN
        IF ~o.ok THEN o ELSE
        LET s == Special(o.i, o.ea) IN
        IF ~s.ok THEN s ELSE
        LET g == IF "EDITCMD" \in c.f /\ ~s.ea.filter THEN Argcmd(s.i, s.ea) ELSE s IN
        Dispatch(g.i, g.ea, c, ctx)

OneCmd(from, ctx) ==
  IF At(from, "#!") THEN Did(LineEnd(from) + 1, <<>>)
  ELSE
  LET i == SkipColon(from) IN
  IF Ch(i) = EOF THEN Did(i, <<>>)
  ELSE IF Ch(i) = EOL THEN Did(i + 1, <<>>)
  ELSE IF Ch(i) = "\"" THEN Trail(i)
  ELSE
  LET m == Mods(i, <<>>)
      r == Range(m.i, <<>>)
  IN IF ~r.ok THEN r ELSE
     LET c == Command(r.i, [NoArg EXCEPT !.lp = i, !.mods = m.m, !.range = r.t], ctx) IN
     IF ~c.ok THEN c ELSE
     LET t == Trail(c.i) IN
     IF ~t.ok THEN t ELSE Did(t.i, c.a \o t.a)
=============================================================================
