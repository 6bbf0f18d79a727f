----------------------------- MODULE CallTrace ------------------------------
(***************************************************************************)
(* Whether a recorded history of calls is one in which every call had the  *)
(* outcome it has alone.  An event is [ev, w, x, r]: worker w calls with    *)
(* input x, or has outcome r from it.  legal.ndjson lists, for every input, *)
(* the outcomes that are the specified one.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Trace == ndJsonDeserialize("trace.ndjson")
Legal == ndJsonDeserialize("legal.ndjson")
NW == ndJsonDeserialize("workers.ndjson")[1]

VARIABLES l, busy
Init == l = 1 /\ busy = [w \in 1..NW |-> 0]
Event(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Calls == /\ Event("call")
         /\ LET t == Trace[l] IN busy[t.w] = 0 /\ busy' = [busy EXCEPT ![t.w] = t.x]
Returns == /\ Event("ret")
           /\ LET t == Trace[l] IN
              /\ busy[t.w] = t.x
              /\ \E k \in DOMAIN Legal[t.x] : Legal[t.x][k] = t.r
              /\ busy' = [busy EXCEPT ![t.w] = 0]
Next == Calls \/ Returns
Spec == Init /\ [][Next]_<<l, busy>>
\* all of it, and nobody left waiting
Accepted == (l > Len(Trace)) => (\A w \in 1..NW : busy[w] = 0) /\ PrintT(ToJson([matched |-> l - 1]))
Stuck == (l <= Len(Trace) /\ ~ENABLED Next) => PrintT(ToJson([matched |-> l - 1]))
=============================================================================
