------------------------------ MODULE MCPrint -------------------------------
(***************************************************************************)
(* Printing and reading again.  A case has the text of an expression and   *)
(* the texts that the printer made of its tree: p of the tree itself and q  *)
(* of the tree without its parenthesis nodes.  Each is parsed here; the     *)
(* trees have to agree.                                                    *)
(*                                                                         *)
(* The printer knows some kinds of nodes only; for the others it has to    *)
(* say so.                                                                 *)
(***************************************************************************)
EXTENDS MCParse

Known == {"binary", "unary", "subscript", "lit", "ident", "paren"}
RECURSIVE Printable(_)
Printable(n) == n.k \in Known /\ \A j \in DOMAIN n.c : Printable(n.c[j])

\* A tree without positions, with one parenthesis for several (one = TRUE) or
\* none at all.
RECURSIVE Norm(_, _)
Norm(n, one) ==
  IF n.k = "paren"
  THEN LET x == Norm(n.c[1], one) IN
       IF ~one \/ x.k = "paren" THEN x ELSE [k |-> "paren", s |-> <<>>, c |-> <<x>>]
  ELSE [k |-> n.k, s |-> n.s, c |-> [j \in DOMAIN n.c |-> Norm(n.c[j], one)]]

\* The three texts are the three parts of the case's trace: 1 the source,
\* 2 the print, 3 the print of the stripped tree.
VARIABLES part, first
pvars == <<part, first>>

PInit == Init /\ part = 1 /\ first = [s |-> "none"]
LoadLines(ls) ==
  LET r == Read([j \in DOMAIN ls |-> Cells(ls[j])]) IN
  [buf |-> r.buf, pos |-> r.pos, nvim |-> FALSE]

PLoad == /\ res.s = "load" /\ UNCHANGED <<cur, i, stk, pvars>>
         /\ src' = LoadLines(Cs[cur].lines) /\ res' = [s |-> "expr"]
\* The source has a tree that can be printed: now what was printed.
PNext1 ==
  /\ res.s = "ok" /\ part = 1 /\ Printable(res.n) /\ Cs[cur].printed
  /\ part' = 2 /\ first' = res
  /\ src' = LoadLines(Cs[cur].p) /\ res' = [s |-> "expr"] /\ UNCHANGED <<cur, i, stk>>
PNext2 ==
  /\ res.s = "ok" /\ part = 2
  /\ part' = 3 /\ UNCHANGED first
  /\ src' = LoadLines(Cs[cur].q) /\ res' = [s |-> "expr"] /\ UNCHANGED <<cur, i, stk>>

\* The text has nothing after the expression.
AllRead(x) == Ch(Skip(x.i)) \in {EOL, EOF}
POneExpr ==
  /\ res.s = "expr" /\ UNCHANGED <<cur, src, i, stk, pvars>>
  /\ LET x == Expr(1) IN
     res' = IF x.ok THEN [s |-> "ok", n |-> x.n, all |-> AllRead(x)] ELSE [s |-> "err", m |-> x.m, p |-> x.i]

PNext == PLoad \/ POneExpr \/ PNext1 \/ PNext2
PView == <<cur, part, res.s>>

Same(one) == res.s = "ok" /\ res.all /\ Norm(res.n, one) = Norm(first.n, one)
PShow ==
  /\ (part = 1 /\ res.s = "err") => PrintT(ToJson([id |-> Cs[cur].id, v |-> "rejected"]))
  /\ (part = 1 /\ res.s = "ok" /\ ~Printable(res.n)) => PrintT(ToJson([id |-> Cs[cur].id, v |-> "unsupported"]))
  /\ (part = 1 /\ res.s = "ok" /\ Printable(res.n) /\ ~Cs[cur].printed) => PrintT(ToJson([id |-> Cs[cur].id, v |-> "unprinted"]))
  /\ (part = 2 /\ res.s \in {"ok", "err"}) =>
       (IF Same(TRUE) THEN TRUE ELSE PrintT(ToJson([id |-> Cs[cur].id, v |-> "different"])))
  /\ (part = 3 /\ res.s \in {"ok", "err"}) =>
       PrintT(ToJson([id |-> Cs[cur].id, v |-> IF Same(FALSE) THEN "same" ELSE "different without parentheses"]))
=============================================================================
