------------------------------- MODULE MCWalk -------------------------------
(***************************************************************************)
(* Parses each case and walks the tree, one call of the visitor per step.  *)
(***************************************************************************)
EXTENDS MCParse, Walk

Pol == Cs[cur].pol

WInit == Init /\ WalkInit
WNext ==
  \/ Next /\ UNCHANGED wvars
  \/ /\ res.s = "ok" /\ WalkFrom(res.n)
     /\ res' = [res EXCEPT !.s = "walk"] /\ UNCHANGED <<cur, src, i, stk>>
  \/ /\ res.s = "walk" /\ WalkStep(Pol)
     /\ UNCHANGED <<cur, src, i, stk, res>>

WView == <<cur, i, res.s, Len(ev)>>

Walked == res.s = "walk" /\ todo = <<>>
WShow ==
  /\ res.s = "err" => PrintT(ToJson(Out))
  /\ Walked => PrintT(ToJson([id |-> Cs[cur].id, r |-> [res EXCEPT !.s = "ok"], pos |-> src.pos, walk |-> ev]))
WalkOK == res.s = "walk" => Nests(Pol) /\ Complete(res.n, Pol)
=============================================================================
