------------------------------ MODULE VimExpr ------------------------------
(***************************************************************************)
(* Vim script expressions.                                                 *)
(*                                                                         *)
(* Operators, loosest first (left associative unless noted):               *)
(*   1  ?:              right associative                                  *)
(*   2  ||      3  &&                                                      *)
(*   4  comparisons     do not associate                                   *)
(*   5  + - . ..        6  * / %                                           *)
(*   7  ! - + (prefix)                                                     *)
(*   8  [i] [i:j] (args) .name ->name(args)                                *)
(*   9  literals, names, (e), [..], {..}, #{..}, {args -> e}               *)
(*                                                                         *)
(* Results are [ok, i, n]: success, the cell after, the node; or           *)
(* [ok |-> FALSE, m, i]: the message and cell of the first error.          *)
(* A node is [k, p, s, c]: kind, cell of its position, strings, children.  *)
(***************************************************************************)
EXTENDS VimLex

Yes(i, n) == [ok |-> TRUE, i |-> i, n |-> n]
No(m, i)  == [ok |-> FALSE, m |-> m, i |-> i]

Nd(k, p, s, c) == [k |-> k, p |-> p, s |-> s, c |-> c]
Nil == Nd("nil", 0, <<>>, <<>>)

TokErr(t) == IF t.t = "ERR" THEN No(t.v, t.p) ELSE No("unexpected token: " \o t.v, t.p)
BadCh(i)  == No("unexpected character: " \o Ch(i), i)

CmpOps == {"==","==?","==#","!=","!=?","!=#",">",">?",">#",">=",">=?",">=#",
           "<","<?","<#","<=","<=?","<=#","=~","=~?","=~#","!~","!~?","!~#",
           "is","is?","is#","isnot","isnot?","isnot#"}

Prec(t) == IF t = "||" THEN 2 ELSE IF t = "&&" THEN 3 ELSE IF t \in CmpOps THEN 4
           ELSE IF t \in {"+", "-", ".", ".."} THEN 5
           ELSE IF t \in {"*", "/", "%"} THEN 6 ELSE 0
OpName(t) == IF t = ".." THEN "." ELSE t

MaxArgs == 20

\* Text of the quoted string that starts at i (cell of the quote).
RECURSIVE SQuoteEnd(_)
SQuoteEnd(i) ==
  IF Ch(i) \in End THEN No("unexpected EOL", i)
  ELSE IF Ch(i) = "'" THEN IF Ch(i + 1) = "'" THEN SQuoteEnd(i + 2) ELSE Yes(i + 1, Nil)
  ELSE SQuoteEnd(i + 1)
RECURSIVE DQuoteEnd(_)
DQuoteEnd(i) ==
  IF Ch(i) \in End THEN No("unexpectd EOL", i)
  ELSE IF Ch(i) = "\"" THEN Yes(i + 1, Nil)
  ELSE IF Ch(i) = "\\"
       THEN IF Ch(i + 1) \in End THEN No("ExprTokenizer: unexpected EOL", i + 1)
            ELSE DQuoteEnd(i + 2)
  ELSE DQuoteEnd(i + 1)

\* Is the <SID> prefix (any case) at cell i?
SidAt(i) == /\ Ch(i) = "<" /\ ToLow(Ch(i+1)) = "s" /\ ToLow(Ch(i+2)) = "i"
            /\ ToLow(Ch(i+3)) = "d" /\ Ch(i+4) = ">"

HasChar(v, S) == \E k \in 1..Len(v) : SubSeq(v, k, k) \in S
IsArgName(v) == ~HasChar(v, {":", "#"})

TokNum == [x \in {EOF, EOL, "||","&&","+","-",".","*","/","%","!","?",":","(",")","[","]",
                  "{","}","num","sq","dq","opt","env","reg","=","|",";","`","#","blob","#{",".."} \cup CmpOps
           |-> CASE x = EOF -> "1" [] x = EOL -> "2" [] x = "||" -> "4" [] x = "&&" -> "5"
                 [] x = "==" -> "6" [] x = "==?" -> "7" [] x = "==#" -> "8"
                 [] x = "!=" -> "9" [] x = "!=?" -> "10" [] x = "!=#" -> "11"
                 [] x = ">" -> "12" [] x = ">?" -> "13" [] x = ">#" -> "14"
                 [] x = ">=" -> "15" [] x = ">=?" -> "16" [] x = ">=#" -> "17"
                 [] x = "<" -> "18" [] x = "<?" -> "19" [] x = "<#" -> "20"
                 [] x = "<=" -> "21" [] x = "<=?" -> "22" [] x = "<=#" -> "23"
                 [] x = "=~" -> "24" [] x = "=~?" -> "25" [] x = "=~#" -> "26"
                 [] x = "!~" -> "27" [] x = "!~?" -> "28" [] x = "!~#" -> "29"
                 [] x = "is" -> "30" [] x = "is?" -> "31" [] x = "is#" -> "32"
                 [] x = "isnot" -> "33" [] x = "isnot?" -> "34" [] x = "isnot#" -> "35"
                 [] x = "+" -> "36" [] x = "-" -> "37" [] x = "." -> "38" [] x = "*" -> "39"
                 [] x = "/" -> "40" [] x = "%" -> "41" [] x = "!" -> "42" [] x = "?" -> "43"
                 [] x = ":" -> "44" [] x = "(" -> "45" [] x = ")" -> "46" [] x = "[" -> "47"
                 [] x = "]" -> "48" [] x = "{" -> "49" [] x = "}" -> "50" [] x = "num" -> "52"
                 [] x = "sq" -> "53" [] x = "dq" -> "54" [] x = "opt" -> "55" [] x = "env" -> "57"
                 [] x = "reg" -> "58" [] x = "=" -> "59" [] x = "|" -> "60" [] x = ";" -> "61"
                 [] x = "`" -> "62" [] x = "#" -> "64" [] x = "blob" -> "66" [] x = "#{" -> "67"
                 [] x = ".." -> "68"]
TypeNum(t) == IF t = "id" THEN "56" ELSE IF t = "..." THEN "63" ELSE IF t = "->" THEN "65"
              ELSE IF t = "," THEN "51" ELSE TokNum[t]

RECURSIVE Expr(_), Climb(_, _), BinLoop(_, _, _, _), Unary(_), Postfix(_), PostLoop(_, _),
          Index(_, _, _), Args(_), ArgLoop(_, _), Primary(_), ListLoop(_, _), Curly(_, _),
          DictLoop(_, _, _, _, _), Lambda(_, _, _, _), LambdaParams(_, _, _, _, _), Ident(_), Parts(_, _)

Expr(i) ==
  LET c == Climb(i, 2) IN
  IF ~c.ok THEN c ELSE
  LET t == Tok(c.i) IN
  IF t.t = "ERR" THEN TokErr(t)
  ELSE IF t.t # "?" THEN c
  ELSE LET a == Expr(t.e) IN
       IF ~a.ok THEN a ELSE
       LET u == Tok(a.i) IN
       IF u.t # ":" THEN TokErr(u)
       ELSE LET b == Expr(u.e) IN
            IF ~b.ok THEN b ELSE Yes(b.i, Nd("ternary", t.p, <<>>, <<c.n, a.n, b.n>>))

Climb(i, min) ==
  LET u == Unary(i) IN IF ~u.ok THEN u ELSE BinLoop(u.n, u.i, min, 6)

\* left is an operand that ends at i; operators of levels min..max may follow.
BinLoop(left, i, min, max) ==
  LET t == Tok(i) IN
  IF t.t = "ERR" THEN TokErr(t) ELSE
  LET p == Prec(t.t) IN
  IF p < min \/ p > max THEN Yes(i, left)
  ELSE LET r == Climb(t.e, p + 1) IN
       IF ~r.ok THEN r
       ELSE BinLoop(Nd("binary", t.p, <<OpName(t.t)>>, <<left, r.n>>), r.i, min,
                    IF p = 4 THEN 3 ELSE p)

Unary(i) ==
  LET t == Tok(i) IN
  IF t.t = "ERR" THEN TokErr(t)
  ELSE IF t.t \in {"!", "-", "+"}
  THEN LET x == Unary(t.e) IN IF ~x.ok THEN x ELSE Yes(x.i, Nd("unary", t.p, <<t.t>>, <<x.n>>))
  ELSE Postfix(i)

Postfix(i) == LET x == Primary(i) IN IF ~x.ok THEN x ELSE PostLoop(x.n, x.i)

Dotable == {"ident", "curlyname", "dict", "subscript", "call", "dot"}

\* The .name after a "." that ends at i-1, if that is what it is.
DotName(left, i) ==
  LET e == Scan(i, Word) IN
  IF left.k \in Dotable /\ Ch(i) \in Word /\ Ch(e) \notin Name THEN e ELSE 0

PostLoop(left, i) ==
  LET t == Tok(i) adj == Ch(i) \notin Blank IN
  IF t.t = "ERR" THEN TokErr(t)
  ELSE IF t.t = "[" /\ adj
  THEN LET x == Index(left, t.p, t.e) IN IF ~x.ok THEN x ELSE PostLoop(x.n, x.i)
  ELSE IF t.t = "->"
  THEN LET f == Primary(t.e) IN
       IF ~f.ok THEN f ELSE
       LET o == Tok(f.i) IN
       IF o.t = "ERR" THEN TokErr(o)
       ELSE IF o.t # "(" THEN No("E107: Missing parentheses: lambda", o.p)
       ELSE LET a == Args(o.e) IN
            IF ~a.ok THEN a
            ELSE PostLoop(Nd("method", o.p, <<>>, <<left, f.n>> \o a.n), a.i)
  ELSE IF t.t = "("
  THEN LET a == Args(t.e) IN
       IF ~a.ok THEN a ELSE PostLoop(Nd("call", t.p, <<>>, <<left>> \o a.n), a.i)
  ELSE IF t.t = "." /\ adj
  THEN LET e == DotName(left, t.e) IN
       IF e = 0 THEN Yes(i, left)
       ELSE PostLoop(Nd("dot", t.p, <<>>, <<left, Nd("ident", t.e, <<Text(t.e, e)>>, <<>>)>>), e)
  ELSE Yes(i, left)

\* left[ ... ]; i is after the bracket, which is at p.
Index(left, p, i) ==
  LET Close(lo, j) ==         \* after the ":" of a slice
        LET t == Tok(j) IN
        IF t.t = "ERR" THEN TokErr(t)
        ELSE IF t.t = "]" THEN Yes(t.e, Nd("slice", p, <<>>, <<left, lo, Nil>>))
        ELSE LET h == Expr(j) IN
             IF ~h.ok THEN h
             ELSE LET u == Tok(h.i) IN
                  IF u.t # "]" THEN TokErr(u)
                  ELSE Yes(u.e, Nd("slice", p, <<>>, <<left, lo, h.n>>))
      t0 == Tok(i)
  IN IF t0.t = "ERR" THEN TokErr(t0)
     ELSE IF t0.t = ":" THEN Close(Nil, t0.e)
     ELSE LET x == Expr(i) IN
          IF ~x.ok THEN x ELSE
          LET u == Tok(x.i) IN
          IF u.t = ":" THEN Close(x.n, u.e)
          ELSE IF u.t # "]" THEN TokErr(u)
          ELSE Yes(u.e, Nd("subscript", p, <<>>, <<left, x.n>>))

\* Arguments; i is after the "(".  n is the sequence of argument nodes.
Args(i) ==
  LET t == Tok(i) IN
  IF t.t = "ERR" THEN TokErr(t)
  ELSE IF t.t = ")" THEN [ok |-> TRUE, i |-> t.e, n |-> <<>>]
  ELSE LET a == ArgLoop(<<>>, i) IN
       IF ~a.ok THEN a
       ELSE IF Len(a.n) > MaxArgs THEN No("E740: Too many arguments for function", a.last)
       ELSE a
ArgLoop(args, i) ==
  LET x == Expr(i) IN
  IF ~x.ok THEN x ELSE
  LET t == Tok(x.i) more == Append(args, x.n) IN
  IF t.t = ")" THEN [ok |-> TRUE, i |-> t.e, n |-> more, last |-> t.p]
  ELSE IF t.t = ","
  THEN LET u == Tok(t.e) IN
       IF u.t = "ERR" THEN TokErr(u)
       ELSE IF u.t = ")" THEN [ok |-> TRUE, i |-> u.e, n |-> more, last |-> t.p]
       ELSE ArgLoop(more, t.e)
  ELSE TokErr(t)

Lit(kind, t) == Yes(t.e, Nd("lit", t.p, <<kind, t.v>>, <<>>))

Primary(i) ==
  LET t == Tok(i) IN
  CASE t.t = "num"  -> Lit("NUMBER", t)
    [] t.t = "blob" -> Lit("BLOB", t)
    [] t.t = "opt"  -> Lit("OPTION", t)
    [] t.t = "env"  -> Lit("ENV", t)
    [] t.t = "reg"  -> Lit("REG", t)
    [] t.t \in {"sq", "dq"} ->
         LET q == IF t.t = "sq" THEN SQuoteEnd(t.e) ELSE DQuoteEnd(t.e) IN
         IF ~q.ok THEN q ELSE Yes(q.i, Nd("lit", t.p, <<"STRING", Text(t.p, q.i)>>, <<>>))
    [] t.t = "(" ->
         LET x == Expr(t.e) IN
         IF ~x.ok THEN x ELSE
         LET u == Tok(x.i) IN
         IF u.t # ")" THEN TokErr(u) ELSE Yes(u.e, Nd("paren", t.p, <<>>, <<x.n>>))
    [] t.t = "[" ->
         LET u == Tok(t.e) IN
         IF u.t = "ERR" THEN TokErr(u)
         ELSE IF u.t = "]" THEN Yes(u.e, Nd("list", t.p, <<>>, <<>>))
         ELSE LET l == ListLoop(<<>>, t.e) IN
              IF ~l.ok THEN l ELSE Yes(l.i, Nd("list", t.p, <<>>, l.n))
    [] t.t \in {"{", "#{"} -> Curly(i, t)
    [] t.t \in {"id", "is", "is#", "isnot", "isnot#"} -> Ident(i)
    [] t.t = "<" /\ SidAt(t.p) -> Ident(i)
    [] OTHER -> TokErr(t)

ListLoop(vals, i) ==
  LET x == Expr(i) IN
  IF ~x.ok THEN x ELSE
  LET t == Tok(x.i) more == Append(vals, x.n) IN
  IF t.t = "]" THEN Yes(t.e, more)
  ELSE IF t.t = ","
  THEN LET u == Tok(t.e) IN
       IF u.t = "ERR" THEN TokErr(u)
       ELSE IF u.t = "]" THEN Yes(u.e, more) ELSE ListLoop(more, t.e)
  ELSE TokErr(t)

\* { or #{ (token t, looked up from cell i): lambda, dictionary or curly name.
Curly(i, t) ==
  LET t1 == Tok(t.e) IN
  IF t1.t = "ERR" THEN TokErr(t1) ELSE
  LET t2 == IF t1.t \in {"->", "sq", "dq"} THEN t1 ELSE Tok(t1.e) IN
  IF t2.t = "ERR" THEN TokErr(t2)
  ELSE IF t1.t = "->" \/ (t1.t \notin {"sq", "dq"} /\ t2.t \in {"->", ","})
  THEN Lambda(i, t, t1, <<>>)
  ELSE DictLoop(i, t, <<>>, t.e, TRUE)

Lambda(i, t, t1, dummy) ==
  LET ps == LambdaParams(<<>>, {}, t1, t1.e, t) IN
  IF ~ps.ok
  THEN IF ps.m = "fallback" THEN DictLoop(i, t, <<>>, t.e, TRUE) ELSE ps
  ELSE LET b == Expr(ps.i) IN
       IF ~b.ok THEN b ELSE
       LET u == Tok(b.i) IN
       IF u.t # "}" THEN TokErr(u)
       ELSE Yes(u.e, Nd("lambda", t.p, <<>>, <<b.n>> \o ps.n))

\* Parameters so far ps, their names seen, current token u which ends at j.
LambdaParams(ps, seen, u, j, t) ==
  LET Next(more, s) ==       \* go on with the token at s
        LET v == Tok(s) IN
        IF v.t = "ERR" THEN TokErr(v) ELSE LambdaParams(more, {x.s[1] : x \in {more[k] : k \in DOMAIN more}}, v, v.e, t)
  IN
  IF u.t = "->" THEN Yes(j, ps)
  ELSE IF u.t = "id" THEN
    IF ~IsArgName(u.v) THEN No("E125: Illegal argument: " \o u.v, u.p)
    ELSE IF u.v \in seen THEN No("E853: Duplicate argument name: " \o u.v, u.p)
    ELSE LET v == Tok(j) more == Append(ps, Nd("ident", u.p, <<u.v>>, <<>>)) IN
         IF v.t = "ERR" THEN TokErr(v)
         ELSE IF Ch(j) \in Blank /\ v.t = ","
           THEN No("E475: Invalid argument: White space is not allowed before comma", j)
         ELSE IF v.t = "->" THEN Yes(v.e, more)
         ELSE IF v.t = ","
           THEN LET w == Tok(v.e) IN
                IF w.t = "ERR" THEN TokErr(w)
                ELSE IF w.t = "->" THEN Yes(w.e, more)
                ELSE Next(more, v.e)
         ELSE No("unexpected token: " \o v.v \o ", type: " \o TypeNum(v.t), v.p)
  ELSE IF u.t = "..." THEN
    LET v == Tok(j) IN
    IF v.t = "->" THEN Yes(v.e, Append(ps, Nd("ident", u.p, <<"...">>, <<>>))) ELSE TokErr(v)
  ELSE No("fallback", j)

LitKey(i) ==                 \* key of a #{} dictionary
  LET k == Skip(i) KeyCh == Alnum \cup {"_", "-"} e == Scan(k, KeyCh) IN
  IF Ch(k) \notin KeyCh THEN BadCh(k)
  ELSE IF Ch(e) \in End THEN No("unexpectd EOL", e)
  ELSE Yes(e, Nd("lit", k, <<"STRING", "'" \o Text(k, e) \o "'">>, <<>>))

DictLoop(i, t, entries, j, first) ==
  LET t0 == Tok(j) IN
  IF first /\ t0.t = "ERR" THEN TokErr(t0)
  ELSE IF first /\ t0.t = "}" THEN Yes(t0.e, Nd("dict", t.p, <<>>, <<>>))
  ELSE
  LET key == IF t.t = "#{" THEN LitKey(j) ELSE Expr(j) IN
  IF ~key.ok THEN key ELSE
  LET u == Tok(key.i) IN
  IF u.t = "}" /\ entries = <<>> THEN Ident(i)          \* {expr}: a curly name
  ELSE IF u.t # ":" THEN TokErr(u)
  ELSE LET v == Expr(u.e) IN
       IF ~v.ok THEN v ELSE
       LET w == Tok(v.i) more == Append(Append(entries, key.n), v.n) IN
       IF w.t = "}" THEN Yes(w.e, Nd("dict", t.p, <<>>, more))
       ELSE IF w.t = ","
       THEN LET x == Tok(w.e) IN
            IF x.t = "ERR" THEN TokErr(x)
            ELSE IF x.t = "}" THEN Yes(x.e, Nd("dict", t.p, <<>>, more))
            ELSE DictLoop(i, t, more, w.e, FALSE)
       ELSE TokErr(w)

\* A name, perhaps with {expr} parts.
Ident(i) ==
  LET j == Skip(i)
      r == IF SidAt(j) THEN Parts(<<Nd("curlylit", j, <<Text(j, j + 5)>>, <<>>)>>, j + 5)
           ELSE Parts(<<>>, j)
  IN IF ~r.ok THEN r
     ELSE IF Len(r.n) = 1 /\ r.n[1].k = "curlylit"
     THEN Yes(r.i, Nd("ident", j, r.n[1].s, <<>>))
     ELSE Yes(r.i, Nd("curlyname", j, <<>>, r.n))
Parts(ps, i) ==
  IF Ch(i) \in Name
  THEN LET e == Scan(i, Name) IN Parts(Append(ps, Nd("curlylit", i, <<Text(i, e)>>, <<>>)), e)
  ELSE IF Ch(i) = "{"
  THEN LET x == Expr(i + 1) IN
       IF ~x.ok THEN x ELSE
       LET j == Skip(x.i) IN
       IF Ch(j) # "}" THEN No("unexpected token: " \o Ch(j), j)
       ELSE Parts(Append(ps, Nd("curlyexpr", i + 1, <<>>, <<x.n>>)), j + 1)
  ELSE Yes(i, ps)

(***************************************************************************)
(* Lvalues: what may stand on the left of = and in :for, :unlet ...        *)
(***************************************************************************)
RECURSIVE LvLoop(_, _)
LvPrimary(i) ==
  LET t == Tok(i) IN
  CASE t.t = "opt"  -> Lit("OPTION", t)
    [] t.t = "env"  -> Lit("ENV", t)
    [] t.t = "reg"  -> Lit("REG", t)
    [] t.t \in {"id", "{"} -> Ident(i)
    [] t.t = "<" /\ SidAt(t.p) -> Ident(i)
    [] OTHER -> TokErr(t)
LvLoop(left, i) ==
  LET t == Tok(i) adj == Ch(i) \notin Blank IN
  IF t.t = "ERR" THEN TokErr(t)
  ELSE IF t.t = "[" /\ adj
  THEN LET x == Index(left, t.p, t.e) IN IF ~x.ok THEN x ELSE LvLoop(x.n, x.i)
  ELSE IF t.t = "." /\ adj
  THEN LET e == DotName(left, t.e) IN
       IF e = 0 THEN Yes(i, left)
       ELSE LvLoop(Nd("dot", t.p, <<>>, <<left, Nd("ident", t.e, <<Text(t.e, e)>>, <<>>)>>), e)
  ELSE Yes(i, left)
LvExpr(i) == LET x == LvPrimary(i) IN IF ~x.ok THEN x ELSE LvLoop(x.n, x.i)
=============================================================================
