------------------------------ MODULE RelSpan -----------------------------
(* Line numbers and line-relative spans (C06).  A scan over the text counts   *)
(* newline characters up to the start of the span.                            *)
EXTENDS Text

VARIABLES txt, toff,   \* text and its byte offsets
          a, b,        \* the span, as positions
          scan,        \* position of the scan
          line, bol    \* lines passed, position of the beginning of the line
svars == <<txt, toff, a, b, scan, line, bol>>

SInit(d) == txt = d /\ toff = Offsets(d) /\ scan = 1 /\ line = 0 /\ bol = 1
Arrived == scan = a
NewLine == /\ ~Arrived /\ txt[scan] = LF
           /\ line' = line + 1 /\ bol' = scan + 1 /\ scan' = scan + 1
           /\ UNCHANGED <<txt, toff, a, b>>
Char == /\ ~Arrived /\ txt[scan] # LF
        /\ scan' = scan + 1
        /\ UNCHANGED <<txt, toff, a, b, line, bol>>
Scan == NewLine \/ Char

RelStart == toff[a] - toff[bol]
RelEnd == RelStart + (toff[b] - toff[a])

\* the statement itself, without a scan
LineDecl(s, i) == Len(SelectSeq(SubSeq(s, 1, i - 1), LAMBDA c : c = LF))
BolDecl(s, i) == LET ls == {k \in 1..(i - 1) : s[k] = LF} IN
                 IF ls = {} THEN 1 ELSE 1 + CHOOSE k \in ls : \A j \in ls : j <= k
AsDeclared == Arrived => /\ line = LineDecl(txt, a)
                         /\ bol = BolDecl(txt, a)
                         /\ RelStart = toff[a] - toff[BolDecl(txt, a)]
                         /\ RelEnd - RelStart = toff[b] - toff[a]
Monotone == bol <= scan /\ line <= scan - 1 /\ scan <= a
===========================================================================
