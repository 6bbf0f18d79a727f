------------------------------- MODULE MCRead -------------------------------
(***************************************************************************)
(* Reading every case in every way a reader can hand it out, then parsing  *)
(* it.  A case has its input as bytes; chars.ndjson tells, for the bytes of *)
(* a character, the cell that stands for it.                               *)
(***************************************************************************)
EXTENDS MCParse, Reader

CharTab == ndJsonDeserialize("chars.ndjson")[1]
RECURSIVE KeyOf(_, _, _)
KeyOf(c, k, acc) == IF k > Len(c) THEN acc
                    ELSE KeyOf(c, k + 1, acc \o ToString(c[k]) \o ".")
Cell(c) == CharTab[KeyOf(c, 1, "")]

RInit == /\ cur \in DOMAIN Cs
         /\ ReadInit(Cs[cur].bytes)
         /\ src = [buf |-> <<>>] /\ i = 0 /\ stk = <<>> /\ res = [s |-> "read"]

MaxEmpty == 1
Empties == Len(SelectSeq(calls, LAMBDA n : n = 0))

Reading ==
  /\ res.s = "read" /\ UNCHANGED <<cur, src, i, stk, res>>
  /\ \E n \in 0..Len(rest) :
       \/ (n = 0 => Empties < MaxEmpty) /\ Give(n)
       \/ GiveLast(n)
       \/ Cs[cur].faults /\ Fail(n)

ReadDone ==
  /\ res.s = "read" /\ rs # "open" /\ UNCHANGED <<cur, rvars>>
  /\ IF rs = "failed"
     THEN res' = [s |-> "unread"] /\ UNCHANGED <<src, i, stk>>
     ELSE /\ LET ls == Lines(got)
                 r  == Read([j \in DOMAIN ls |-> [k \in DOMAIN ls[j] |-> Cell(ls[j][k])]])
             IN src' = [buf |-> r.buf, pos |-> r.pos, nvim |-> Cs[cur].nvim]
          /\ i' = 1 /\ stk' = <<Frame(FileNode)>>
          /\ res' = [s |-> IF Cs[cur].m = "expr" THEN "expr" ELSE "run"]

RNext == Reading \/ ReadDone \/ ((OneExpr \/ Step \/ Finish) /\ UNCHANGED rvars)

\* How the bytes came does not matter once they are read.
RView == <<cur, i, res.s, calls>>

RShow ==
  res.s \in {"ok", "err", "unread"} =>
    PrintT(ToJson([id |-> Cs[cur].id, calls |-> calls, r |-> res,
                   pos |-> IF res.s = "unread" THEN <<>> ELSE src.pos]))
RFaithful == Faithful(Cs[cur].bytes) /\ AllGot(Cs[cur].bytes) /\ NoneLost(got)
=============================================================================
