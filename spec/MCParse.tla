------------------------------ MODULE MCParse -------------------------------
(***************************************************************************)
(* The parser on the cases of cases.ndjson, one behaviour for each: reads  *)
(* the source, takes its commands one by one, and prints how it ended, for *)
(* the comparison with the code.                                           *)
(*                                                                         *)
(* A case is [id, m, nvim, lines, want, pol]: m is "file" or "expr", lines  *)
(* are the physical lines, want tells what to print.  widths.ndjson holds one record: character -> bytes.    *)
(***************************************************************************)
EXTENDS VimScript, Sexp, Json

Cs   == ndJsonDeserialize("cases.ndjson")
WTab == ndJsonDeserialize("widths.ndjson")[1]
CV   == ndJsonDeserialize("widths.ndjson")[2].v
CG   == ndJsonDeserialize("widths.ndjson")[2].g
CM   == ndJsonDeserialize("widths.ndjson")[2].m

Cells(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]

Init == /\ cur \in DOMAIN Cs
        /\ src = [buf |-> <<>>] /\ i = 0 /\ stk = <<>> /\ res = [s |-> "load"]

Load ==
  /\ res.s = "load"
  /\ src' = LET r == Read([j \in DOMAIN Cs[cur].lines |-> Cells(Cs[cur].lines[j])]) IN
            [buf |-> r.buf, pos |-> r.pos, nvim |-> Cs[cur].nvim]
  /\ i' = 1
  /\ stk' = <<Frame(FileNode)>>
  /\ res' = [s |-> IF Cs[cur].m = "expr" THEN "expr" ELSE "run"]
  /\ UNCHANGED cur

OneExpr ==                   \* the expression entry point
  /\ res.s = "expr"
  /\ LET x == Expr(1) IN
     res' = IF x.ok THEN [s |-> "ok", n |-> x.n] ELSE [s |-> "err", m |-> x.m, p |-> x.i]
  /\ UNCHANGED <<cur, src, i, stk>>

Next == Load \/ OneExpr \/ Step \/ Finish

View == <<cur, i, res.s>>

Done == res.s \in {"ok", "err"}
Wants(w) == \E k \in DOMAIN Cs[cur].want : Cs[cur].want[k] = w
Out == [id |-> Cs[cur].id, r |-> res, pos |-> src.pos]
Show == Done => PrintT(ToJson(IF res.s = "ok" /\ Wants("sexp")
                              THEN Out @@ [sexp |-> Compiled(res.n)] ELSE Out))
Nested == res.s = "run" => WellNested /\ InOrder
\* every behaviour ends: there is no state without a next one but these
Total == ENABLED Next \/ Done
=============================================================================
