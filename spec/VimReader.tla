----------------------------- MODULE VimReader -----------------------------
(***************************************************************************)
(* The input of the parser.                                                *)
(*                                                                         *)
(* A source is a sequence of physical lines; a line is a sequence of       *)
(* cells, one per character (one per byte for bytes that are not UTF-8).   *)
(* A character is a one-character string; characters wider than one byte   *)
(* are listed in WidthOf.                                                  *)
(*                                                                         *)
(* Reading a source joins continuation lines (blanks followed by a         *)
(* backslash) to the line before, and gives every cell the position of its *)
(* first byte in the original text: <<line, column, byte offset>>, line    *)
(* and column from 1, offset from 0.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS WidthOf        \* character -> width in bytes, for width # 1

EOL == "<EOL>"
EOF == "<EOF>"

Blank == {" ", "\t"}

Wid(c) == IF c \in DOMAIN WidthOf THEN WidthOf[c] ELSE 1

RECURSIVE FirstNot(_, _, _)
FirstNot(l, k, S) ==        \* first index >= k of l whose cell is not in S
  IF k <= Len(l) /\ l[k] \in S THEN FirstNot(l, k + 1, S) ELSE k

IsContinuation(l) ==
  LET k == FirstNot(l, 1, Blank) IN k <= Len(l) /\ l[k] = "\\"

\* Byte column (from 1) of the k-th cell of line l; k = Len(l)+1 is its end.
RECURSIVE ColAcc(_, _, _, _)
ColAcc(l, k, upto, acc) ==
  IF k >= upto THEN acc ELSE ColAcc(l, k + 1, upto, acc + Wid(l[k]))
ByteCol(l, k) == ColAcc(l, 1, k, 1)

\* Cells of line l from index k on, appended to acc.
\* acc = [buf, pos]; off is the byte offset of the start of the line.
RECURSIVE AddCells(_, _, _, _, _, _)
AddCells(acc, l, k, lnum, off, col) ==
  IF k > Len(l) THEN acc
  ELSE AddCells([buf |-> Append(acc.buf, l[k]),
                 pos |-> Append(acc.pos, <<lnum, col, off + col - 1>>)],
                l, k + 1, lnum, off, col + Wid(l[k]))

LineBytes(l) == ByteCol(l, Len(l) + 1) - 1

\* Read lines n.. of src; off is the byte offset of the start of line n.
\* open says that a logical line is under construction (so that line n may
\* continue it) and lastp is the position its end would have.
RECURSIVE ReadFrom(_, _, _, _, _, _)
ReadFrom(src, n, off, acc, open, lastp) ==
  LET close == IF open
               THEN [buf |-> Append(acc.buf, EOL), pos |-> Append(acc.pos, lastp)]
               ELSE acc
  IN
  IF n > Len(src)
  THEN [buf |-> close.buf,
        pos |-> Append(close.pos, <<n, 0, off>>)]      \* the end of the file
  ELSE
    LET l    == src[n]
        len  == LineBytes(l)
        endp == <<n, len + 1, off + len>>
        bs   == FirstNot(l, 1, Blank)
        joins == open /\ bs <= Len(l) /\ l[bs] = "\\"
    IN IF joins
       THEN ReadFrom(src, n + 1, off + len + 1,
                     AddCells(acc, l, bs + 1, n, off, ByteCol(l, bs + 1)), TRUE, endp)
       ELSE ReadFrom(src, n + 1, off + len + 1,
                     AddCells(close, l, 1, n, off, 1), TRUE, endp)

Read(src) == ReadFrom(src, 1, 0, [buf |-> <<>>, pos |-> <<>>], FALSE, <<>>)
=============================================================================
