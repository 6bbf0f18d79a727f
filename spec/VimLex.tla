------------------------------- MODULE VimLex -------------------------------
(***************************************************************************)
(* Tokens of Vim script expressions: a function of the position alone.     *)
(* A token is [t, v, p, e]: type, text, first cell, cell after the last.   *)
(* Type "ERR" is a lexical error: v is the message, p where.               *)
(***************************************************************************)
EXTENDS VimReader

VARIABLES cur,             \* which case is being read
          src              \* its text, as read: [buf, pos]

Buf == src.buf
N   == Len(src.buf)
Ch(i) == IF i <= N THEN Buf[i] ELSE EOF

Digit  == {"0","1","2","3","4","5","6","7","8","9"}
Bin    == {"0","1"}
Lower  == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
           "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper  == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
           "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alpha  == Lower \cup Upper
Alnum  == Alpha \cup Digit
Word   == Alnum \cup {"_"}
Word1  == Alpha \cup {"_"}
Name   == Word \cup {":", "#"}
Hex    == Digit \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
End    == {EOL, EOF}

LowerOf == [c \in Upper |-> CHOOSE l \in Lower :
              \E k \in 1..26 :
                 /\ SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", k, k) = c
                 /\ SubSeq("abcdefghijklmnopqrstuvwxyz", k, k) = l]
ToLow(c) == IF c \in Upper THEN LowerOf[c] ELSE c

RECURSIVE Scan(_, _)
Scan(i, S) == IF Ch(i) \in S THEN Scan(i + 1, S) ELSE i

Skip(i) == Scan(i, Blank)

RECURSIVE TextAcc(_, _, _)
TextAcc(i, j, acc) == IF i >= j THEN acc ELSE TextAcc(i + 1, j, acc \o Ch(i))
Text(i, j) == TextAcc(i, j, "")     \* the characters of cells i..j-1

LineEnd(i) ==                        \* index of the end of the line holding i
  LET RECURSIVE Go(_)
      Go(k) == IF Ch(k) \in End THEN k ELSE Go(k + 1)
  IN Go(i)

Tk(t, v, p, e) == [t |-> t, v |-> v, p |-> p, e |-> e]
Op(s, p)       == [t |-> s, v |-> s, p |-> p, e |-> p + Len(s)]
LexErr(m, p)   == [t |-> "ERR", v |-> m, p |-> p, e |-> p]

\* A comparison operator may be followed by ? (ignore case) or # (match case).
Cmp(s, p) == LET c == Ch(p + Len(s)) IN
             IF c = "?" THEN Op(s \o "?", p)
             ELSE IF c = "#" THEN Op(s \o "#", p) ELSE Op(s, p)

\* Blob digits come in pairs, optionally separated by dots.
RECURSIVE BlobEnd(_)
BlobEnd(i) ==
  IF Ch(i) \in Hex
  THEN IF Ch(i + 1) \in Hex THEN BlobEnd(i + 2)
       ELSE IF Ch(i + 1) \in End THEN i
       ELSE 0 - i                   \* odd digit at i
  ELSE IF Ch(i) = "." /\ Ch(i + 1) \in Hex
  THEN IF Ch(i + 2) \in Hex THEN BlobEnd(i + 3)
       ELSE 0 - (i + 1)             \* an odd digit after a dot, also at the end of a line
  ELSE i

NumEnd(i) ==                         \* decimal: digits [ . digits [e[+-]digits]]
  LET a == Scan(i, Digit) IN
  IF Ch(a) = "." /\ Ch(a + 1) \in Digit
  THEN LET f == Scan(a + 1, Digit) IN
       IF Ch(f) \in {"e", "E"}
       THEN IF Ch(f + 1) \in Digit THEN Scan(f + 1, Digit)
            ELSE IF Ch(f + 1) \in {"+", "-"} /\ Ch(f + 2) \in Digit
            THEN Scan(f + 2, Digit) ELSE f
       ELSE f
  ELSE a

Single == {"+", "*", "/", "%", "!", "?", ":", "(", ")", "[", "]", "{", "}",
           ",", "=", "|", ";", "`", "#"}

LexAt(i) ==                          \* the token that starts exactly at i
  LET c == Ch(i) d == Ch(i + 1) IN
  IF c = EOF THEN Tk(EOF, EOF, i, i)
  ELSE IF c = EOL THEN Tk(EOL, EOL, i, i + 1)
  ELSE IF c \in Digit THEN
    IF c = "0" /\ d \in {"x", "X"} /\ Ch(i + 2) \in Hex
      THEN LET e == Scan(i + 2, Hex) IN Tk("num", Text(i, e), i, e)
    ELSE IF c = "0" /\ d \in {"b", "B"} /\ Ch(i + 2) \in Bin
      THEN LET e == Scan(i + 2, Bin) IN Tk("num", Text(i, e), i, e)
    ELSE IF c = "0" /\ d \in {"z", "Z"} /\ Ch(i + 2) # "."
      THEN LET e == BlobEnd(i + 2) IN
           IF e < 0 THEN LexErr("E973: Blob literal should have an even number of hex characters:"
                                \o Text(0 - e, IF Ch(1 - e) \in End THEN 1 - e ELSE 2 - e), 0 - e)
           ELSE Tk("blob", Text(i, e), i, e)
    ELSE LET e == NumEnd(i) IN Tk("num", Text(i, e), i, e)
  ELSE IF c = "i" /\ d = "s" /\ Ch(i + 2) \notin Word THEN Cmp("is", i)
  ELSE IF c = "i" /\ d = "s" /\ Ch(i + 2) = "n" /\ Ch(i + 3) = "o" /\ Ch(i + 4) = "t"
          /\ Ch(i + 5) \notin Word THEN Cmp("isnot", i)
  ELSE IF c \in Word1 THEN LET e == Scan(i + 1, Name) IN Tk("id", Text(i, e), i, e)
  ELSE CASE c = "|" /\ d = "|" -> Op("||", i)
         [] c = "&" /\ d = "&" -> Op("&&", i)
         [] c = "&" /\ d # "&" ->
              LET w == IF d \in {"g", "l"} /\ Ch(i + 2) = ":" THEN i + 3 ELSE i + 1
                  e == Scan(w, Word)
              IN Tk("opt", Text(i, e), i, e)
         [] c = "=" /\ d = "=" -> Cmp("==", i)
         [] c = "=" /\ d = "~" -> Cmp("=~", i)
         [] c = "!" /\ d = "=" -> Cmp("!=", i)
         [] c = "!" /\ d = "~" -> Cmp("!~", i)
         [] c = ">" /\ d = "=" -> Cmp(">=", i)
         [] c = "<" /\ d = "=" -> Cmp("<=", i)
         [] c = ">" /\ d # "=" -> Cmp(">", i)
         [] c = "<" /\ d # "=" -> Cmp("<", i)
         [] c = "-" -> IF d = ">" THEN Op("->", i) ELSE Op("-", i)
         [] c = "." -> IF d = "." THEN IF Ch(i + 2) = "." THEN Op("...", i) ELSE Op("..", i)
                       ELSE Op(".", i)
         [] c = "#" /\ d = "{" -> Op("#{", i)
         [] c = "'" -> Tk("sq", "'", i, i + 1)
         [] c = "\"" -> Tk("dq", "\"", i, i + 1)
         [] c = "$" -> LET e == Scan(i + 1, Word) IN Tk("env", Text(i, e), i, e)
         [] c = "@" -> LET e == IF d \in End THEN i + 1 ELSE i + 2 IN Tk("reg", Text(i, e), i, e)
         [] c \in Single /\ ~(c = "|" /\ d = "|") /\ ~(c = "=" /\ d \in {"=", "~"})
            /\ ~(c = "!" /\ d \in {"=", "~"}) /\ ~(c = "#" /\ d = "{") -> Op(c, i)
         [] OTHER -> LexErr("unexpected character: " \o c, i)

Tok(i) == LexAt(Skip(i))             \* the next token after blanks
=============================================================================
