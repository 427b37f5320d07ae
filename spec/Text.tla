------------------------------- MODULE Text -------------------------------
(* Text is a sequence of Unicode code points.  Positions are 1-based; a     *)
(* range [i, j) is written as the pair i, j.  The library reports byte       *)
(* offsets (UTF-8), which Offsets derives.                                   *)
EXTENDS Integers, Sequences

LF == 10   CR == 13   TAB == 9   SP == 32   NUL == 0   US == 31
DQ == 34   SQ == 39   BT == 96   HASH == 35  DOLLAR == 36
BS == 92   EQ == 61   COMMA == 44  LBR == 91  RBR == 93
DASH == 45 USCORE == 95  DOT == 46  COLON == 58  SLASH == 47
LCB == 123 RCB == 125 ATSIGN == 64 PLUS == 43

EOI == -1                                   \* what At reads behind the text
At(s, i) == IF i <= Len(s) THEN s[i] ELSE EOI
Slice(s, i, j) == SubSeq(s, i, j - 1)       \* the text of the range [i, j)

IsUpper(c) == c >= 65 /\ c <= 90
IsLowerC(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLowerC(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsWord(c) == IsAlnum(c) \/ c = USCORE
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c     \* ASCII only
LowerSeq(s) == [i \in 1..Len(s) |-> Lower(s[i])]

Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

RECURSIVE OffsetsRec(_, _, _)
OffsetsRec(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE OffsetsRec(s, i + 1, Append(acc, acc[i] + Width(s[i])))
\* byte offset of every position 1 .. Len(s)+1
Offsets(s) == IF \A i \in 1..Len(s) : s[i] < 128
              THEN [i \in 1..(Len(s) + 1) |-> i - 1]
              ELSE OffsetsRec(s, 1, <<0>>)

\* does the (lower-case) word w occur at i, ignoring ASCII case?
WordAt(s, i, w) == /\ i + Len(w) - 1 <= Len(s)
                   /\ \A k \in 1..Len(w) : Lower(s[i + k - 1]) = w[k]

\* position of the first c at or after i, or 0
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE Find(s, c, i + 1)

HasChar(s, c) == \E i \in 1..Len(s) : s[i] = c

RECURSIVE FlattenRec(_, _, _)
FlattenRec(ss, i, acc) == IF i > Len(ss) THEN acc ELSE FlattenRec(ss, i + 1, acc \o ss[i])
Flatten(ss) == FlattenRec(ss, 1, <<>>)

(* ---- literals: T("RUN a\n") is the code point sequence of a TLA+ string ---- *)
Printable == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} \cup {"\n", "\t", "\r", "\\", "\""} |->
   CASE ch = "\n" -> LF [] ch = "\t" -> TAB [] ch = "\r" -> CR [] ch = "\\" -> BS [] ch = "\"" -> DQ
     [] OTHER -> LET i == CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch
                 IN  IF i = 1 THEN 32 ELSE IF i = 2 THEN 33      \* space, !
                     ELSE IF i < 60 THEN i + 32                  \* # .. [  (skips the double quote)
                     ELSE i + 33]                                \* ] .. ~  (skips the backslash)
T(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
===========================================================================
