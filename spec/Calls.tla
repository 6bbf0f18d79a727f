------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Several calls of the library at the same time.                          *)
(*                                                                         *)
(* A call parses one input.  What matters of an input here is the sequence *)
(* of command names in it; looking up a name goes through a cache (a miss  *)
(* looks in the table and puts the answer into the cache, in two steps).   *)
(* A user command is never in the table; its answer belongs to the name as *)
(* it was written, so that a cache that forgets part of the name, or one   *)
(* that serves calls with different options, gives wrong answers.          *)
(*                                                                         *)
(* Shared says whether calls share a cache: the library promises that a    *)
(* call's outcome is the one it has alone, which holds if they do not.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Workers,       \* who calls
          Inputs,        \* input -> [names, nvim]
          Shared         \* design: TRUE if the cache belongs to all calls

Key(w) == IF Shared THEN "all" ELSE w

\* The table: what a name is, with and without the Neovim option.
Table(name, nvim) ==
  IF name = "tnoremap" THEN "vim"
  ELSE IF name = "rshada" THEN IF nvim THEN "nvim" ELSE "unknown"
  ELSE IF name = "rviminfo" THEN IF nvim THEN "unknown" ELSE "vim"
  ELSE "user:" \o name

Alone(x) == [k \in DOMAIN Inputs[x].names |-> Table(Inputs[x].names[k], Inputs[x].nvim)]

VARIABLES call,          \* worker -> input being parsed, or "none"
          at,            \* worker -> names read
          ans,           \* worker -> answers so far
          miss,          \* worker -> answer to be put into the cache, or "none"
          cache,         \* key -> name -> answer
          calls,         \* calls begun
          wrong          \* calls that ended with another outcome than alone
vars == <<call, at, ans, miss, cache, calls, wrong>>

CONSTANT MaxCalls
Keys == IF Shared THEN {"all"} ELSE Workers

Init ==
  /\ call = [w \in Workers |-> "none"] /\ at = [w \in Workers |-> 0]
  /\ ans = [w \in Workers |-> <<>>] /\ miss = [w \in Workers |-> "none"]
  /\ cache = [k \in Keys |-> <<>>] /\ calls = 0 /\ wrong = {}

Call(w, x) ==
  /\ call[w] = "none" /\ calls < MaxCalls
  /\ call' = [call EXCEPT ![w] = x] /\ at' = [at EXCEPT ![w] = 0]
  /\ ans' = [ans EXCEPT ![w] = <<>>] /\ calls' = calls + 1
  \* a call that has its own cache starts with an empty one
  /\ cache' = IF Shared THEN cache ELSE [cache EXCEPT ![w] = <<>>]
  /\ UNCHANGED <<miss, wrong>>

Name(w) == Inputs[call[w]].names[at[w] + 1]
Busy(w) == call[w] # "none" /\ at[w] < Len(Inputs[call[w]].names)

Hit(w) ==
  /\ Busy(w) /\ miss[w] = "none" /\ Name(w) \in DOMAIN cache[Key(w)]
  /\ ans' = [ans EXCEPT ![w] = Append(@, cache[Key(w)][Name(w)])]
  /\ at' = [at EXCEPT ![w] = @ + 1]
  /\ UNCHANGED <<call, miss, cache, calls, wrong>>
Miss(w) ==
  /\ Busy(w) /\ miss[w] = "none" /\ Name(w) \notin DOMAIN cache[Key(w)]
  /\ miss' = [miss EXCEPT ![w] = Table(Name(w), Inputs[call[w]].nvim)]
  /\ UNCHANGED <<call, at, ans, cache, calls, wrong>>
Fill(w) ==
  /\ miss[w] # "none"
  /\ cache' = [cache EXCEPT ![Key(w)] = (Name(w) :> miss[w]) @@ @]
  /\ ans' = [ans EXCEPT ![w] = Append(@, miss[w])]
  /\ at' = [at EXCEPT ![w] = @ + 1] /\ miss' = [miss EXCEPT ![w] = "none"]
  /\ UNCHANGED <<call, calls, wrong>>
Return(w) ==
  /\ call[w] # "none" /\ ~Busy(w)
  /\ wrong' = IF ans[w] = Alone(call[w]) THEN wrong ELSE wrong \cup {<<w, call[w]>>}
  /\ call' = [call EXCEPT ![w] = "none"]
  /\ UNCHANGED <<at, ans, miss, cache, calls>>

Next == \E w \in Workers :
          (\E x \in DOMAIN Inputs : Call(w, x)) \/ Hit(w) \/ Miss(w) \/ Fill(w) \/ Return(w)
Spec == Init /\ [][Next]_vars

Isolated == wrong = {}
=============================================================================
