-------------------------------- MODULE Sexp --------------------------------
(***************************************************************************)
(* The compiled form of a tree: a sequence of lines.                       *)
(***************************************************************************)
EXTENDS VimCmd

CONSTANT CtrlM            \* the cell that stands for a carriage return

RECURSIVE EscAcc(_, _, _, _)
EscAcc(s, k, acc, how) ==
  IF k > Len(s) THEN acc
  ELSE LET c == SubSeq(s, k, k) IN
       EscAcc(s, k + 1, acc \o (IF c \in DOMAIN how THEN how[c] ELSE c), how)
Quoted(s)   == EscAcc(s, 1, "", ("\\" :> "\\\\") @@ ("\"" :> "\\\""))
Controls(s) == EscAcc(s, 1, "", ("\n" :> "\\n") @@ ("\t" :> "\\t") @@ (CtrlM :> "\\r"))

RECURSIVE JoinFrom(_, _, _)
JoinFrom(l, k, acc) ==
  IF k > Len(l) THEN acc ELSE JoinFrom(l, k + 1, IF k = 1 THEN l[1] ELSE acc \o " " \o l[k])
Join(l) == JoinFrom(l, 1, "")
RECURSIVE Glue(_, _, _)
Glue(l, k, acc) == IF k > Len(l) THEN acc ELSE Glue(l, k + 1, acc \o l[k])

Form(head, args) == "(" \o Join(<<head>> \o args) \o ")"

RECURSIVE SX(_)
SXs(l) == [k \in DOMAIN l |-> SX(l[k])]
SX(n) ==
  LET c == n.c k == n.k IN
  CASE k = "ternary"   -> Form("?:", SXs(c))
    [] k = "binary"    -> Form(IF n.s[1] = "." THEN "concat" ELSE n.s[1], SXs(c))
    [] k = "unary"     -> Form(n.s[1], SXs(c))
    [] k = "subscript" -> Form("subscript", SXs(c))
    [] k = "slice"     -> Form("slice", [j \in DOMAIN c |-> IF c[j] = Nil THEN "nil" ELSE SX(c[j])])
    [] k = "method"    -> Form("method", <<SX(c[1]), "(" \o Join(SXs(Tail(c))) \o ")">>)
    [] k = "call"      -> "(" \o Join(SXs(c)) \o ")"
    [] k = "dot"       -> Form("dot", SXs(c))
    [] k = "lit"       -> n.s[2]
    [] k = "list"      -> Form("list", SXs(c))
    [] k = "dict"      -> Form("dict", [j \in 1..(Len(c) \div 2) |-> "(" \o SX(c[2 * j - 1]) \o " " \o SX(c[2 * j]) \o ")"])
    [] k = "lambda"    -> Form("lambda", <<"(" \o Join(SXs(Tail(c))) \o ")", SX(c[1])>>)
    [] k = "paren"     -> SX(c[1])
    [] k \in {"ident", "curlylit"} -> n.s[1]
    [] k = "curlyname" -> Glue(SXs(c), 1, "")
    [] k = "curlyexpr" -> "{" \o SX(c[1]) \o "}"
    [] k = "heredoc"   ->
         Form("heredoc",
              <<Form("list", [j \in DOMAIN c[1].c |-> "\"" \o c[1].c[j].s[2] \o "\""]),
                "\"" \o n.s[1] \o "\"",
                Form("list", [j \in DOMAIN c[2].c |-> "\"" \o Controls(c[2].c[j].s[2]) \o "\""])>>)

\* A depth is printed as a number: no leading zeros, no more than an int holds.
MaxInt == "9223372036854775807"
RECURSIVE SkipZeros(_)
SkipZeros(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN SkipZeros(SubSeq(s, 2, Len(s))) ELSE s
DigitVal(c) == CHOOSE v \in 0..9 : ToString(v) = c
RECURSIVE DigitsLess(_, _, _)         \* of equal lengths
DigitsLess(a, b, k) ==
  /\ k <= Len(a)
  /\ LET x == DigitVal(SubSeq(a, k, k)) y == DigitVal(SubSeq(b, k, k)) IN
     x < y \/ (x = y /\ DigitsLess(a, b, k + 1))
Number(s) ==
  LET t == SkipZeros(s) IN
  IF Len(t) > 19 \/ (Len(t) = 19 /\ DigitsLess(MaxInt, t, 1)) THEN MaxInt ELSE t

RECURSIVE Pad(_)
Pad(d) == IF d = 0 THEN "" ELSE "  " \o Pad(d - 1)
CloseLast(l) == SubSeq(l, 1, Len(l) - 1) \o <<l[Len(l)] \o ")">>

\* The targets left, list and rest, of :let and :for.
Targets(l, list, rest) ==
  IF l # Nil THEN SX(l)
  ELSE "(" \o Join(SXs(list.c)) \o (IF rest = Nil THEN "" ELSE " . " \o SX(rest)) \o ")"

SParams(n) ==
  LET ps == n.c[2].c ds == n.c[3].c
      dots == ps # <<>> /\ ps[Len(ps)].s[1] = "..."
      np == IF dots THEN Len(ps) - 1 ELSE Len(ps)
      first == np - Len(ds)           \* so many have no default
  IN [j \in 1..np |-> IF j <= first THEN ps[j].s[1]
                      ELSE "(" \o ps[j].s[1] \o " " \o SX(ds[j - first]) \o ")"]
     \o (IF dots THEN <<". ...">> ELSE <<>>)

RECURSIVE SL(_, _), SLs(_, _, _, _), Clauses(_, _, _, _)
SLs(l, d, k, acc) == IF k > Len(l) THEN acc ELSE SLs(l, d, k + 1, acc \o SL(l[k], d))
Body2(n, d) == SLs(n.c, d + 1, 1, <<>>)
\* :elseif, :else, :catch and :finally
Clauses(l, d, k, acc) ==
  IF k > Len(l) THEN acc
  ELSE LET n == l[k]
           head == Pad(d) \o " " \o
             (CASE n.k = "elseif" -> n.ea.cmd \o " " \o SX(n.c[1])
                [] n.k = "catch" -> IF n.s[1] = "" THEN n.ea.cmd ELSE n.ea.cmd \o " /" \o n.s[1] \o "/"
                [] OTHER -> n.ea.cmd)
       IN Clauses(l, d, k + 1, acc \o <<head>> \o Body2(n.c[Len(n.c)], d))
Opt(n) == IF n = Nil THEN <<>> ELSE <<n>>

SL(n, d) ==                \* the lines of statement n at depth d
  LET c == n.c k == n.k In(s) == <<Pad(d) \o s>> IN
  CASE k = "comment" -> In(";" \o n.s[1])
    [] k = "excmd" -> In("(excmd \"" \o Quoted(n.s[1]) \o "\")")
    [] k = "function" ->
         CloseLast(In("(function " \o Form(SX(c[1]), SParams(n))) \o Body2(c[4], d))
    [] k \in {"delfunction", "excall", "throw", "eval", "echocmd", "execute", "unlet"} ->
         In("(" \o n.ea.cmd \o " " \o Join(SXs(c)) \o ")")
    [] k = "return" -> In(IF c[1] = Nil THEN "(" \o n.ea.cmd \o ")" ELSE Form(n.ea.cmd, <<SX(c[1])>>))
    [] k = "let" -> In(Form(n.ea.cmd, <<n.s[1], Targets(c[1], c[2], c[3]), SX(c[4])>>))
    [] k \in {"lockvar", "unlockvar"} ->
         In(Form(n.ea.cmd, (IF Number(n.s[1]) = "0" THEN <<>> ELSE <<Number(n.s[1])>>) \o SXs(c)))
    [] k = "echohl" -> In("(" \o n.ea.cmd \o " \"" \o Quoted(n.s[1]) \o "\")")
    [] k \in {"break", "continue"} -> In("(" \o n.ea.cmd \o ")")
    [] k = "if" -> CloseLast(In("(" \o n.ea.cmd \o " " \o SX(c[1])) \o Body2(c[2], d)
                             \o Clauses(c[3].c \o Opt(c[4]), d, 1, <<>>))
    [] k = "while" -> CloseLast(In("(" \o n.ea.cmd \o " " \o SX(c[1])) \o Body2(c[2], d))
    [] k = "for" -> CloseLast(In("(" \o n.ea.cmd \o " " \o Targets(c[1], c[2], c[3]) \o " " \o SX(c[4]))
                              \o Body2(c[5], d))
    [] k = "try" -> CloseLast(In("(" \o n.ea.cmd) \o Body2(c[1], d) \o Clauses(c[2].c \o Opt(c[3]), d, 1, <<>>))

Compiled(n) ==
  IF n.k = "file" THEN SLs(n.c, 0, 1, <<>>) ELSE <<SX(n)>>
=============================================================================
