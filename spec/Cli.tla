-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command-line tool.                                                  *)
(*                                                                         *)
(* A case is one run of it: argv (its arguments), fs (the files there are, *)
(* each [name, kind, lines]; kind is "file" or "dir"), stdin (lines), and   *)
(* full (its standard output takes no bytes).                              *)
(*                                                                         *)
(* files  the inputs to go: [name, stdin]                                  *)
(* out    what went to standard output: compiled lines or JSON trees       *)
(* err    what was reported: [t, name, m, p]                               *)
(* code   the exit status so far                                           *)
(***************************************************************************)
EXTENDS MCParse

VARIABLES files, opts, out, err, code
clivars == <<files, opts, out, err, code>>

(***************************************************************************)
(* The arguments: options, up to the first that is none or "--".           *)
(***************************************************************************)
FlagForms(n) == {"-" \o n, "--" \o n}
Truths == {"1", "t", "T", "true", "TRUE", "True"}
Falses == {"0", "f", "F", "false", "FALSE", "False"}
IsFlag(a) == Len(a) >= 2 /\ SubSeq(a, 1, 1) = "-"
\* The value that argument a gives to flag n: "yes", "no" or "none".
Gives(a, n) ==
  IF a \in FlagForms(n) \cup UNION {{f \o "=" \o v : v \in Truths} : f \in FlagForms(n)} THEN "yes"
  ELSE IF a \in UNION {{f \o "=" \o v : v \in Falses} : f \in FlagForms(n)} THEN "no"
  ELSE "none"
RECURSIVE Options(_, _, _)
Options(av, k, o) ==
  IF k > Len(av) \/ ~IsFlag(av[k]) THEN [o EXCEPT !.rest = SubSeq(av, k, Len(av))]
  ELSE IF av[k] = "--" THEN [o EXCEPT !.rest = SubSeq(av, k + 1, Len(av))]
  ELSE IF Gives(av[k], "neovim") # "none" THEN Options(av, k + 1, [o EXCEPT !.nvim = Gives(av[k], "neovim") = "yes"])
  ELSE IF Gives(av[k], "json") # "none" THEN Options(av, k + 1, [o EXCEPT !.json = Gives(av[k], "json") = "yes"])
  ELSE [o EXCEPT !.bad = av[k] \notin UNION {FlagForms(n) : n \in {"h", "help"}}, !.help = TRUE]

CInit ==
  /\ cur \in DOMAIN Cs
  /\ src = [buf |-> <<>>] /\ i = 0 /\ stk = <<>> /\ res = [s |-> "start"]
  /\ files = <<>> /\ opts = [rest |-> <<>>, nvim |-> FALSE, json |-> FALSE, bad |-> FALSE, help |-> FALSE]
  /\ out = <<>> /\ err = <<>> /\ code = 0

C == Cs[cur]

ReadArgs ==
  /\ res.s = "start" /\ UNCHANGED <<cur, src, i, stk, out>>
  /\ LET o == Options(C.argv, 1, opts) IN
     /\ opts' = o
     /\ IF o.help
        THEN /\ res' = [s |-> "exit"] /\ files' = <<>>
             /\ code' = IF o.bad THEN 2 ELSE 0
             /\ err' = IF o.bad THEN <<[t |-> "usage"]>> ELSE err
        ELSE /\ res' = [s |-> "next"] /\ UNCHANGED <<code, err>>
             /\ files' = IF o.rest = <<>> THEN << [stdin |-> TRUE, name |-> ""] >>
                         ELSE [k \in DOMAIN o.rest |-> [stdin |-> FALSE, name |-> o.rest[k]]]

Named(n) == {k \in DOMAIN C.fs : C.fs[k].name = n}
Report(e) == err' = Append(err, e) /\ code' = 1

\* The next input: opened, or reported.
Open ==
  /\ res.s = "next" /\ files # <<>> /\ UNCHANGED <<cur, out, files, opts>>
  /\ LET f == Head(files)
         ls == IF f.stdin THEN C.stdin ELSE C.fs[CHOOSE k \in Named(f.name) : TRUE].lines
     IN IF ~f.stdin /\ Named(f.name) = {}
        THEN Report([t |-> "open", name |-> f.name]) /\ res' = [s |-> "skip"] /\ UNCHANGED <<src, i, stk>>
        ELSE IF ~f.stdin /\ C.fs[CHOOSE k \in Named(f.name) : TRUE].kind = "dir"
        THEN Report([t |-> "read", name |-> f.name]) /\ res' = [s |-> "skip"] /\ UNCHANGED <<src, i, stk>>
        ELSE /\ src' = LET r == Read([j \in DOMAIN ls |-> Cells(ls[j])]) IN
                       [buf |-> r.buf, pos |-> r.pos, nvim |-> opts.nvim]
             /\ i' = 1 /\ stk' = <<Frame(FileNode)>> /\ res' = [s |-> "run"]
             /\ UNCHANGED <<err, code>>

Parsing == (Step \/ Finish) /\ UNCHANGED clivars

Write ==
  /\ res.s = "ok" /\ UNCHANGED <<cur, src, i, stk, opts, files>>
  /\ LET ls == IF opts.json THEN <<ToString(Len(res.n.c))>> ELSE Compiled(res.n) IN
     IF C.full /\ ls # <<>>
     THEN Report([t |-> "write"]) /\ UNCHANGED out
     ELSE out' = Append(out, ls) /\ UNCHANGED <<err, code>>
  /\ res' = [s |-> "skip"]

Refuse ==
  /\ res.s = "err" /\ UNCHANGED <<cur, src, i, stk, opts, files, out>>
  /\ LET at == src.pos[res.p] IN
     Report([t |-> "parse", name |-> Head(files).name, m |-> res.m, line |-> at[1], col |-> at[2]])
  /\ res' = [s |-> "skip"]

Skipping == res.s = "skip" /\ files' = Tail(files) /\ res' = [s |-> "next"]
            /\ UNCHANGED <<cur, src, i, stk, opts, out, err, code>>
Exit == res.s = "next" /\ files = <<>> /\ res' = [s |-> "exit"]
        /\ UNCHANGED <<cur, src, i, stk, clivars>>

CNext == ReadArgs \/ Open \/ Parsing \/ Write \/ Refuse \/ Skipping \/ Exit
CView == <<cur, i, res.s, Len(files), Len(out), Len(err)>>

CShow == res.s = "exit" =>
  PrintT(ToJson([id |-> C.id, out |-> out, err |-> err, code |-> code, json |-> opts.json]))
\* Every input leaves one trace, in one of the two outputs; the status tells
\* whether there was anything to report.
OneEach == res.s \in {"next", "exit"} /\ ~opts.help =>
  Len(out) + Len(err) + Len(files) = (IF opts.rest = <<>> THEN 1 ELSE Len(opts.rest))
Honest == code = 0 <=> err = <<>>
=============================================================================
