-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Walking a tree with a visitor, one call of the visitor per step.        *)
(*                                                                         *)
(* The visitor's answers are a parameter: the k-th node it is shown gets   *)
(* the k-th element of pol (repeated): 0 is nil, 1 the same visitor, 2 a   *)
(* new one.  Visitors are numbered, from 0.                                *)
(*                                                                         *)
(* todo  what is still to come, first first: <<v, node>> is a visit with   *)
(*       visitor v, <<v>> the final call of v with nil                     *)
(* ev    the calls so far: <<v, kind, cell>> or <<v>>                      *)
(* seen  how many nodes the visitor was shown, fresh: visitors made so far *)
(*                                                                         *)
(* Inspect is the same walk with a function that has no identity; true is  *)
(* 1 or 2, false is 0.                                                     *)
(***************************************************************************)
EXTENDS VimCmd, FiniteSets

VARIABLES todo, ev, seen, fresh
wvars == <<todo, ev, seen, fresh>>

\* The children of a node in the order of its fields, nils left out.
RECURSIVE Flat(_, _, _)
Flat(c, k, acc) ==
  IF k > Len(c) THEN acc
  ELSE Flat(c, k + 1, IF c[k] = Nil THEN acc
                      ELSE IF c[k].k = "seq" THEN acc \o c[k].c ELSE Append(acc, c[k]))
Kids(n) == IF n.k = "lambda" THEN Tail(n.c) \o <<n.c[1]>> ELSE Flat(n.c, 1, <<>>)

RECURSIVE Size(_)
RECURSIVE SumSize(_, _)
SumSize(l, k) == IF k > Len(l) THEN 0 ELSE Size(l[k]) + SumSize(l, k + 1)
Size(n) == 1 + SumSize(Kids(n), 1)

WalkInit == todo = <<>> /\ ev = <<>> /\ seen = 0 /\ fresh = 0
WalkFrom(root) == todo' = << <<0, root>> >> /\ UNCHANGED <<ev, seen, fresh>>

Answer(pol, k) == IF pol = <<>> THEN 1 ELSE pol[(k % Len(pol)) + 1]

Enter(pol) ==
  /\ todo # <<>> /\ Len(Head(todo)) = 2
  /\ LET v == Head(todo)[1]
         n == Head(todo)[2]
         a == Answer(pol, seen)
         w == IF a = 2 THEN fresh + 1 ELSE v
         ks == Kids(n)
     IN /\ ev' = Append(ev, <<v, n.k, n.p>>)
        /\ seen' = seen + 1
        /\ fresh' = IF a = 2 THEN fresh + 1 ELSE fresh
        /\ todo' = IF a = 0 THEN Tail(todo)
                   ELSE [j \in DOMAIN ks |-> <<w, ks[j]>>] \o << <<w>> >> \o Tail(todo)
Leave ==
  /\ todo # <<>> /\ Len(Head(todo)) = 1
  /\ ev' = Append(ev, Head(todo))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<seen, fresh>>

WalkStep(pol) == Enter(pol) \/ Leave

\* A visitor that never answers nil is shown every node once, and called with
\* nil once for each.
Complete(root, pol) ==
  (todo = <<>> /\ \A k \in DOMAIN pol : pol[k] # 0) => seen = Size(root) /\ Len(ev) = 2 * seen
\* Calls nest: a final call is due for every node entered and not yet left.
Nests(pol) ==
  LET opened == Cardinality({k \in DOMAIN ev : Len(ev[k]) = 3})
      closed == Cardinality({k \in DOMAIN ev : Len(ev[k]) = 1})
      due    == Cardinality({k \in DOMAIN todo : Len(todo[k]) = 1})
      skip   == Cardinality({k \in 0..(seen - 1) : Answer(pol, k) = 0})
  IN opened = seen /\ opened - skip = closed + due
=============================================================================
