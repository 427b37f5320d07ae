------------------------------ MODULE Splicing ----------------------------
(* The splicer as a state machine (C21).  It holds a buffer and, for every      *)
(* splice so far, where in the original document it started and by how much it  *)
(* changed the length.  Spans are byte ranges of the original document.         *)
EXTENDS Text, TLC

VARIABLES
  orig,      \* the original document (code points)
  buf,       \* the buffer
  shifts,    \* <<start in the original, change in length>> of every splice so far
  done       \* the splices so far: [sp |-> <<from, to>>, r |-> text]
svars == <<orig, buf, shifts, done>>

Above(s, c) == Len(SelectSeq(s, LAMBDA x : x >= c))
Bytes(s) == Len(s) + Above(s, 128) + Above(s, 2048) + Above(s, 65536)
\* position in s of the byte offset b (0: none); long texts are searched by halves
RECURSIVE PlaceFrom(_, _, _, _)
PlaceFrom(s, b, j, at) == IF at = b THEN j ELSE IF at > b \/ j > Len(s) THEN 0 ELSE PlaceFrom(s, b, j + 1, at + Width(s[j]))
RECURSIVE PlaceIn(_, _, _, _, _)
PlaceIn(s, b, from, to, at) ==       \* between the positions from and to; at: byte offset of from
  IF to - from <= 64 THEN PlaceFrom(s, b, from, at)
  ELSE LET mid == (from + to) \div 2
           there == at + Bytes(SubSeq(s, from, mid - 1))
       IN IF b < there THEN PlaceIn(s, b, from, mid, at) ELSE PlaceIn(s, b, mid, to, there)
Place(s, b) == PlaceIn(s, b, 1, Len(s) + 1, 0)

(* the mechanism: shift both ends of the span by the splices before them *)
RECURSIVE ShiftSum(_, _, _, _)
ShiftSum(sh, limit, j, acc) == IF j > Len(sh) THEN acc
                               ELSE ShiftSum(sh, limit, j + 1, IF sh[j][1] < limit THEN acc + sh[j][2] ELSE acc)
Adjusted(sh, sp) == <<sp[1] + ShiftSum(sh, sp[1], 1, 0), sp[2] + ShiftSum(sh, sp[2], 1, 0)>>
Replaced(s, sp, r) == Slice(s, 1, Place(s, sp[1])) \o r \o Slice(s, Place(s, sp[2]), Len(s) + 1)
SInit(d) == orig = d /\ buf = d /\ shifts = <<>> /\ done = <<>>
Splice(sp, r) ==
  LET now == Adjusted(shifts, sp) IN
  /\ buf' = Replaced(buf, now, r)
  /\ shifts' = Append(shifts, <<sp[1], Bytes(r) - (now[2] - now[1])>>)
  /\ done' = Append(done, [sp |-> sp, r |-> r])
  /\ UNCHANGED orig

(* which series of splices are meant *)
Disjoint(a, b) == a[2] <= b[1] \/ b[2] <= a[1]
Within(a, b) == b[1] <= a[1] /\ a[2] <= b[2]
Allowed(ops, sp) == sp[1] < sp[2] /\ \A j \in 1..Len(ops) : Disjoint(ops[j].sp, sp) \/ Within(ops[j].sp, sp)
AllAllowed(d, ops) ==
  LET o == Offsets(d) bounds == {o[j] : j \in 1..Len(o)} IN
  \A j \in 1..Len(ops) : /\ ops[j].sp[1] \in bounds /\ ops[j].sp[2] \in bounds
                         /\ Allowed(SubSeq(ops, 1, j - 1), ops[j].sp)

(* what they have to yield: the original text with the outermost spans replaced *)
Last(ops, j) == \A m \in (j + 1)..Len(ops) : ~Within(ops[j].sp, ops[m].sp)
Final(ops) == SelectSeq([j \in 1..Len(ops) |-> j], LAMBDA j : Last(ops, j))
RECURSIVE PatchFrom(_, _, _, _, _)
PatchFrom(d, ops, order, k, j) ==       \* from position j on, with the ops order[k], order[k + 1], ...
  IF k > Len(order) THEN Slice(d, j, Len(d) + 1)
  ELSE LET m == ops[order[k]] IN
       Slice(d, j, Place(d, m.sp[1])) \o m.r \o PatchFrom(d, ops, order, k + 1, Place(d, m.sp[2]))
Patch(d, ops) == PatchFrom(d, ops, SortSeq(Final(ops), LAMBDA x, y : ops[x].sp[1] < ops[y].sp[1]), 1, 1)
===========================================================================
