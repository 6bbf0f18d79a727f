----------------------------- MODULE VimScript ------------------------------
(***************************************************************************)
(* Reading a script: a machine that takes one command per step.            *)
(*                                                                         *)
(* i    the cell where the next command starts                             *)
(* stk  the open blocks, innermost first; the last one is the file.        *)
(*      A frame is [n, body, cl, el]: the node without its body, the       *)
(*      statements so far, the closed :elseif or :catch clauses, and the   *)
(*      closed :else or :finally (Nil if there is none)                    *)
(* res  [s |-> "run"], [s |-> "ok", n] or [s |-> "err", m, p]              *)
(***************************************************************************)
EXTENDS VimCmd

VARIABLES i, stk, res

Frame(n) == [n |-> n, body |-> <<>>, cl |-> <<>>, el |-> Nil]
FileNode == Nd("file", 1, <<>>, <<>>)

ClauseKinds == {"elseif", "else", "catch", "finally"}
BlockKinds  == {"function", "if", "while", "for", "try"}

\* A clause goes back into its block.
CloseClause(s) ==
  LET f == s[1] g == s[2]
      n == [f.n EXCEPT !.c = @ \o <<Many(f.body)>>]
  IN <<IF f.n.k \in {"elseif", "catch"} THEN [g EXCEPT !.cl = Append(@, n)]
       ELSE [g EXCEPT !.el = n]>> \o SubSeq(s, 3, Len(s))

AddTo(s, n) == <<[s[1] EXCEPT !.body = Append(@, n)]>> \o Tail(s)

\* The block on top is complete: end is the command that ends it.
Finished(f, end) ==
  LET k == f.n.k IN
  [f.n EXCEPT !.c = @ \o
     (IF k \in {"if", "try"} THEN <<Many(f.body), Many(f.cl), f.el, end>>
      ELSE <<Many(f.body), end>>)]

CloseBlock(s, end) ==
  LET t == IF s[1].n.k \in ClauseKinds THEN CloseClause(s) ELSE s
      n == Finished(t[1], end)
  IN AddTo(Tail(t), n)

Apply1(s, a) ==
  CASE a.t = "add"    -> AddTo(s, a.n)
    [] a.t = "open"   -> <<Frame(a.n)>> \o s
    [] a.t = "clause" -> <<Frame(a.n)>> \o (IF s[1].n.k \in ClauseKinds THEN CloseClause(s) ELSE s)
    [] a.t = "close"  -> CloseBlock(s, a.n)
RECURSIVE ApplyAll(_, _)
ApplyAll(s, acts) == IF acts = <<>> THEN s ELSE ApplyAll(Apply1(s, Head(acts)), Tail(acts))

Ctx(s) == [k \in DOMAIN s |-> s[k].n.k]

Start == i = 1 /\ stk = <<Frame(FileNode)>> /\ res = [s |-> "run"]

Step ==
  /\ res.s = "run"
  /\ Ch(i) # EOF
  /\ LET r == OneCmd(i, Ctx(stk)) IN
     IF r.ok
     THEN i' = r.i /\ stk' = ApplyAll(stk, r.a) /\ UNCHANGED res
     ELSE res' = [s |-> "err", m |-> r.m, p |-> r.i] /\ UNCHANGED <<i, stk>>
  /\ UNCHANGED <<cur, src>>

Finish ==
  /\ res.s = "run"
  /\ Ch(i) = EOF
  /\ LET m == Missing(stk[1].n.k, "TOPLEVEL", i) IN
     res' = IF m.ok THEN [s |-> "ok", n |-> [FileNode EXCEPT !.c = stk[1].body]]
            ELSE [s |-> "err", m |-> m.m, p |-> m.i]
  /\ UNCHANGED <<cur, src, i, stk>>

(***************************************************************************)
(* What always holds.                                                      *)
(***************************************************************************)
\* A clause stands on its block, and nothing but the file is at the bottom.
WellNested ==
  /\ stk[Len(stk)].n.k = "file"
  /\ \A k \in 1..(Len(stk) - 1) :
       /\ stk[k].n.k \in BlockKinds \cup ClauseKinds
       /\ stk[k].n.k \in {"elseif", "else"} => stk[k + 1].n.k = "if"
       /\ stk[k].n.k \in {"catch", "finally"} => stk[k + 1].n.k = "try"
  /\ \A k \in DOMAIN stk :
       /\ stk[k].cl # <<>> => stk[k].n.k \in {"if", "try"}
       /\ stk[k].el # Nil => stk[k].n.k \in {"if", "try"}

\* Statements stand in source order, in every body.  (A command that is only
\* modifiers or a range stands where its name would be, which is also where a
\* comment after it stands.)
Before(m, n) == m.p < n.p \/ (m.p = n.p /\ m.k = "excmd" /\ m.ea.cmd = "" /\ n.k = "comment")
InOrder ==
  \A k \in DOMAIN stk : \A j \in 1..(Len(stk[k].body) - 1) : Before(stk[k].body[j], stk[k].body[j + 1])

\* Every command takes at least one cell.
Progress == [][i' > i \/ res' # res]_<<i, res>>
=============================================================================
