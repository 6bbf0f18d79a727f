------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reading the input, byte by byte as a reader hands it out.               *)
(*                                                                         *)
(* The reader has bytes (numbers 0 to 255) left to give.  It gives them in *)
(* pieces of any size, also empty ones, and ends by saying so, alone or    *)
(* with the last piece; or it fails, alone or along with a piece.          *)
(*                                                                         *)
(* rest   bytes not yet handed out                                         *)
(* got    bytes handed out                                                 *)
(* rs     "open", "end" or "failed"                                        *)
(* calls  the answers so far: a piece of n bytes is n; when it comes with  *)
(*        the end or the failure, -1 - n                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES rest, got, rs, calls
rvars == <<rest, got, rs, calls>>

ReadInit(bytes) == rest = bytes /\ got = <<>> /\ rs = "open" /\ calls = <<>>

\* A piece of n bytes.
Give(n) ==
  /\ rs = "open" /\ n <= Len(rest)
  /\ got' = got \o SubSeq(rest, 1, n)
  /\ rest' = SubSeq(rest, n + 1, Len(rest))
  /\ calls' = Append(calls, n)
  /\ UNCHANGED rs
\* The last n bytes, and the end with them.
GiveLast(n) ==
  /\ rs = "open" /\ n = Len(rest)
  /\ got' = got \o rest /\ rest' = <<>>
  /\ calls' = Append(calls, -1 - n)
  /\ rs' = "end"
\* A failure after n more bytes.
Fail(n) ==
  /\ rs = "open" /\ n <= Len(rest)
  /\ got' = got \o SubSeq(rest, 1, n)
  /\ rest' = SubSeq(rest, n + 1, Len(rest))
  /\ calls' = Append(calls, -1 - n)
  /\ rs' = "failed"

(***************************************************************************)
(* From bytes to lines of characters.                                      *)
(***************************************************************************)
Cont(b, k) == k <= Len(b) /\ b[k] \in 128..191
\* How many bytes the character at k takes: a byte that starts no valid UTF-8
\* sequence stands alone.
CharLen(b, k) ==
  LET x == b[k] IN
  IF x < 128 THEN 1
  ELSE IF x \in 194..223 /\ Cont(b, k + 1) THEN 2
  ELSE IF /\ x \in 224..239 /\ Cont(b, k + 1) /\ Cont(b, k + 2)
          /\ (x = 224 => b[k + 1] >= 160) /\ (x = 237 => b[k + 1] < 160) THEN 3
  ELSE IF /\ x \in 240..244 /\ Cont(b, k + 1) /\ Cont(b, k + 2) /\ Cont(b, k + 3)
          /\ (x = 240 => b[k + 1] >= 144) /\ (x = 244 => b[k + 1] < 144) THEN 4
  ELSE 1

RECURSIVE CharsAcc(_, _, _)
CharsAcc(b, k, acc) ==
  IF k > Len(b) THEN acc
  ELSE CharsAcc(b, k + CharLen(b, k), Append(acc, SubSeq(b, k, k + CharLen(b, k) - 1)))
Chars(b) == CharsAcc(b, 1, <<>>)

\* A newline ends a line; what is left at the end is a line as well.  A
\* carriage return at the end of a line goes with the end.
EndLine(l) == IF l # <<>> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l
RECURSIVE LinesAcc(_, _, _, _)
LinesAcc(b, k, l, acc) ==
  IF k > Len(b) THEN IF l = <<>> THEN acc ELSE Append(acc, Chars(EndLine(l)))
  ELSE IF b[k] = 10 THEN LinesAcc(b, k + 1, <<>>, Append(acc, Chars(EndLine(l))))
  ELSE LinesAcc(b, k + 1, Append(l, b[k]), acc)
Lines(b) == LinesAcc(b, 1, <<>>, <<>>)

(***************************************************************************)
(* Nothing is lost, made up or reordered, and every byte is in one line.   *)
(***************************************************************************)
Faithful(bytes) == got \o rest = bytes
AllGot(bytes) == rs = "end" => got = bytes

RECURSIVE Flatten(_, _, _)
Flatten(s, k, acc) == IF k > Len(s) THEN acc ELSE Flatten(s, k + 1, acc \o s[k])
NoneLost(b) ==
  LET ls == Lines(b)
      kept == Flatten([k \in DOMAIN ls |-> Flatten(ls[k], 1, <<>>)], 1, <<>>)
      dropped == {k \in DOMAIN b : b[k] = 10 \/ (b[k] = 13 /\ (k = Len(b) \/ b[k + 1] = 10))}
      RECURSIVE Pick(_, _)
      Pick(k, acc) == IF k > Len(b) THEN acc
                      ELSE Pick(k + 1, IF k \in dropped THEN acc ELSE Append(acc, b[k]))
  IN kept = Pick(1, <<>>)
=============================================================================
