------------------------------ MODULE MCBlocks ------------------------------
(***************************************************************************)
(* Every script of at most Depth of the given lines: after each prefix that *)
(* is still legal, every line.  cases.ndjson holds the lines one may choose *)
(* from, as records [id, w] where w is the line.  For every script reached, *)
(* what the parser says at its end is printed.                             *)
(***************************************************************************)
EXTENDS VimScript, Json

Ws    == ndJsonDeserialize("cases.ndjson")
Depth == ndJsonDeserialize("widths.ndjson")[2].depth
WTab  == ndJsonDeserialize("widths.ndjson")[1]
CV    == ndJsonDeserialize("widths.ndjson")[2].v
CG    == ndJsonDeserialize("widths.ndjson")[2].g

Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]

VARIABLE words             \* the lines chosen
bvars == <<words, i, stk, res>>

Text0(ws) == Read([k \in DOMAIN ws |-> Chars(Ws[ws[k]].w)])
BInit ==
  /\ cur = 0 /\ words = <<>> /\ i = 1 /\ stk = <<Frame(FileNode)>> /\ res = [s |-> "run"]
  /\ src = Text0(<<>>) @@ [nvim |-> FALSE]

AtEnd == res.s = "run" /\ Ch(i) = EOF

Add ==
  /\ AtEnd /\ Len(words) < Depth
  /\ \E k \in DOMAIN Ws :
       /\ words' = Append(words, k)
       /\ src' = Text0(words') @@ [nvim |-> FALSE]
  /\ UNCHANGED <<cur, i, stk, res>>

BNext == Add \/ (Step /\ UNCHANGED words)
BView == <<words, i, res.s>>

\* What happens if the script ends here.
Ending ==
  LET m == Missing(stk[1].n.k, "TOPLEVEL", i) IN
  IF m.ok THEN [s |-> "ok", n |-> [FileNode EXCEPT !.c = stk[1].body]]
  ELSE [s |-> "err", m |-> m.m, p |-> m.i]

BShow == /\ AtEnd => PrintT(ToJson([w |-> words, r |-> Ending, pos |-> src.pos]))
         /\ res.s = "err" => PrintT(ToJson([w |-> words, r |-> res, pos |-> src.pos]))
BNested == res.s = "run" => WellNested /\ InOrder
\* The script is legal so far exactly if its openers and closers balance: the
\* stack is what they say.
Depths == res.s = "run" => Len(stk) <= 2 * Len(words) + 1
=============================================================================
