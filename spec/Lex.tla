------------------------------- MODULE Lex --------------------------------
(* Lexical elements of a Dockerfile.  Every recogniser takes the text s and  *)
(* a position i and returns the position after the element, or 0 if the      *)
(* element is not there.                                                     *)
EXTENDS Text

IsBlank(c) == c = SP \/ c = TAB

\* line break: LF, CRLF or a lone CR; 0 if there is none at i
BreakEnd(s, i) ==
  LET c == At(s, i) IN
  IF c = LF THEN i + 1
  ELSE IF c = CR THEN (IF At(s, i + 1) = LF THEN i + 2 ELSE i + 1)
  ELSE 0
IsBreak(c) == c = LF \/ c = CR

RECURSIVE SkipBlanks(_, _)
SkipBlanks(s, i) == IF IsBlank(At(s, i)) THEN SkipBlanks(s, i + 1) ELSE i

RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF At(s, i) = EOI \/ IsBreak(At(s, i)) THEN i ELSE LineEnd(s, i + 1)

\* a backslash, optional blanks and a line break
ContEnd(s, i) == IF At(s, i) = BS THEN BreakEnd(s, SkipBlanks(s, i + 1)) ELSE 0

\* position of the '#' if the line at i is a comment line, else 0
CommentAt(s, i) == LET j == SkipBlanks(s, i) IN IF At(s, j) = HASH THEN j ELSE 0
\* end of the comment line at i (its line break included, if it has one)
CommentLineEnd(s, i) ==
  LET j == CommentAt(s, i) IN
  IF j = 0 THEN 0
  ELSE LET e == LineEnd(s, j) IN IF BreakEnd(s, e) = 0 THEN e ELSE BreakEnd(s, e)

\* comment and empty lines that may follow a continuation between operands
RECURSIVE FillerEnd(_, _)
FillerEnd(s, i) ==
  LET c == CommentLineEnd(s, i) IN
  IF c # 0 THEN FillerEnd(s, c)
  ELSE LET b == BreakEnd(s, SkipBlanks(s, i)) IN IF b # 0 THEN FillerEnd(s, b) ELSE i

\* separators between operands: blanks and continuations; Gap may be empty, Sep not
RECURSIVE GapEnd(_, _)
GapEnd(s, i) ==
  IF IsBlank(At(s, i)) THEN GapEnd(s, i + 1)
  ELSE LET c == ContEnd(s, i) IN IF c = 0 THEN i ELSE GapEnd(s, FillerEnd(s, c))
SepEnd(s, i) == LET e == GapEnd(s, i) IN IF e = i THEN 0 ELSE e

\* a word: everything up to a separator or line break
RECURSIVE WordRun(_, _)
WordRun(s, i) ==
  LET c == At(s, i) IN
  IF c = EOI \/ IsBreak(c) \/ IsBlank(c) \/ (c = BS /\ ContEnd(s, i) # 0) THEN i
  ELSE WordRun(s, i + 1)
NonEmpty(i, e) == IF e = i THEN 0 ELSE e
WordEnd(s, i) == NonEmpty(i, WordRun(s, i))

\* a key: everything up to a separator, '=' or line break
RECURSIVE KeyRun(_, _)
KeyRun(s, i) ==
  LET c == At(s, i) IN
  IF c = EOI \/ IsBreak(c) \/ IsBlank(c) \/ c = EQ \/ (c = BS /\ ContEnd(s, i) # 0) THEN i
  ELSE KeyRun(s, i + 1)
KeyEnd(s, i) == NonEmpty(i, KeyRun(s, i))

RECURSIVE AlphaRun(_, _)
AlphaRun(s, i) == IF IsAlpha(At(s, i)) THEN AlphaRun(s, i + 1) ELSE i
AlphaEnd(s, i) == NonEmpty(i, AlphaRun(s, i))

RECURSIVE NameRun(_, _)
NameRun(s, i) == IF IsWord(At(s, i)) THEN NameRun(s, i + 1) ELSE i
NameEnd(s, i) == NonEmpty(i, NameRun(s, i))                 \* ENV names
ArgNameEnd(s, i) == IF IsAlpha(At(s, i)) THEN NameRun(s, i) ELSE 0

RECURSIVE IdentRun(_, _)
IdentRun(s, i) == IF IsWord(At(s, i)) \/ At(s, i) = DASH THEN IdentRun(s, i + 1) ELSE i
IdentEnd(s, i) == NonEmpty(i, IdentRun(s, i))               \* stage aliases

IsImageChar(c) == IsWord(c) \/ c \in {DASH, DOT, COLON, SLASH, DOLLAR, LCB, RCB, ATSIGN}
RECURSIVE ImageRun(_, _)
ImageRun(s, i) == IF IsImageChar(At(s, i)) THEN ImageRun(s, i + 1) ELSE i
ImageEnd(s, i) == NonEmpty(i, ImageRun(s, i))

(* ---- quoted strings ---- *)
\* how far a backslash at i extends; the characters it may take are fixed,
\* any other one is left to be read as an ordinary character
EscapeEnd(s, i) ==
  LET c == At(s, i + 1) IN
  IF c \in {98, 116, 110, 102, 114, DQ, BS, SQ} THEN i + 2         \* b t n f r " \ '
  ELSE IF c = 117 /\ (\A k \in 2..5 : IsHex(At(s, i + k))) THEN i + 6
  ELSE IF c = 85 /\ (\A k \in 2..9 : IsHex(At(s, i + k))) THEN i + 10
  ELSE IF BreakEnd(s, i + 1) # 0 THEN BreakEnd(s, i + 1)
  ELSE i + 1
RECURSIVE QuotedRun(_, _, _)
QuotedRun(s, i, q) ==
  LET c == At(s, i) IN
  IF c = q THEN i + 1
  ELSE IF c = EOI \/ c = NUL \/ c = US THEN 0
  ELSE IF c = BS THEN QuotedRun(s, EscapeEnd(s, i), q)
  ELSE QuotedRun(s, i + 1, q)
\* a single- or double-quoted string, possibly containing line breaks
StringEnd(s, i) == IF At(s, i) \in {DQ, SQ} THEN QuotedRun(s, i + 1, At(s, i)) ELSE 0

(* ---- decoding of quoted text ---- *)
Bad == [ok |-> FALSE, v |-> <<>>]
Good(v) == [ok |-> TRUE, v |-> v]

\* value of the characters a..b of t in the given base, capped; -1 if not a number
\* (a leading '+' is allowed when a digit follows)
Cap == 1114112
DigitVal(c, base) == LET v == IF IsHex(c) THEN HexVal(c) ELSE 99 IN IF v < base THEN v ELSE -1
RECURSIVE NumRec(_, _, _, _, _)
NumRec(t, a, b, base, acc) ==
  IF a > b THEN acc
  ELSE LET d == DigitVal(At(t, a), base) IN
       IF d < 0 THEN -1
       ELSE NumRec(t, a + 1, b, base, IF acc >= Cap THEN Cap ELSE acc * base + d)
Num(t, a, b, base) == IF b > Len(t) THEN -1
                      ELSE IF At(t, a) = PLUS /\ a < b THEN NumRec(t, a + 1, b, base, 0)
                      ELSE NumRec(t, a, b, base, 0)

SimpleEscape(c) ==
  CASE c \in {BS, DQ, SQ, BT} -> c
    [] c = 97  -> 7    [] c = 98  -> 8   [] c = 102 -> 12  [] c = 110 -> 10
    [] c = 114 -> 13   [] c = 116 -> 9   [] c = 118 -> 11  [] OTHER -> -1

IsScalar(n) == n >= 0 /\ n < Cap /\ ~(n >= 55296 /\ n <= 57343)

RECURSIVE DecodeRec(_, _, _, _)
DecodeRec(t, i, q, acc) ==
  LET Numeric(from, len, base, max) ==
        LET v == Num(t, from, from + len - 1, base) IN
        IF v < 0 \/ v > max \/ ~IsScalar(v) THEN Bad
        ELSE DecodeRec(t, from + len, q, Append(acc, v))
      c == At(t, i)
      d == At(t, i + 1)
  IN
  IF i > Len(t) THEN Good(acc)
  ELSE IF c = q THEN Bad
  ELSE IF c # BS THEN DecodeRec(t, i + 1, q, Append(acc, c))
  ELSE IF SimpleEscape(d) >= 0 THEN DecodeRec(t, i + 2, q, Append(acc, SimpleEscape(d)))
  ELSE IF IsDigit(d) THEN Numeric(i + 1, 3, 8, 255)
  ELSE IF d = 120 THEN Numeric(i + 2, 2, 16, 255)
  ELSE IF d = 117 THEN Numeric(i + 2, 4, 16, Cap)
  ELSE IF d = 85 THEN Numeric(i + 2, 8, 16, Cap)
  ELSE Bad

\* t includes its quotes
Unquote(t) ==
  IF Len(t) < 2 \/ t[1] \notin {DQ, SQ, BT} \/ t[Len(t)] # t[1] THEN Bad
  ELSE DecodeRec(SubSeq(t, 2, Len(t) - 1), 1, t[1], <<>>)

\* operands that may or may not be quoted
MaybeUnquote(t) == IF t[1] \in {DQ, SQ, BT} THEN Unquote(t) ELSE Good(t)

\* removal of every occurrence (left to right, not overlapping) of p in t
RECURSIVE RemoveRec(_, _, _, _)
RemoveRec(t, p, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE IF i + Len(p) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(p) - 1) = p
       THEN RemoveRec(t, p, i + Len(p), acc)
       ELSE RemoveRec(t, p, i + 1, Append(acc, t[i]))
Remove(t, p) == IF HasChar(t, BS) THEN RemoveRec(t, p, 1, <<>>) ELSE t
DropEscapedBreaks(t) == Remove(Remove(t, <<BS, CR, LF>>), <<BS, LF>>)
===========================================================================
