----------------------------- MODULE GenValues -----------------------------
(* Two texts are built next to each other, piece by piece, in all ways.         *)
EXTENDS Values, Json, IOUtils, TLC, SequencesExt
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Spans == <<<<0, 2>>, <<1, 1>>>> \o (IF Thorough THEN <<<<0, 10>>>> ELSE <<>>)
Strs == <<<<>>, <<97>>, <<97, 233>>>>
PieceSpans == <<<<0, 3>>, <<2, 2>>>>
Adds == {[t |-> t, sp |-> PieceSpans[s], c |-> Strs[k], via |-> (k + s) % 5] : t \in {"s", "c"}, s \in 1..2, k \in 2..3}
           \cup {[t |-> t, sp |-> PieceSpans[1], c |-> <<>>, via |-> v] : t \in {"s", "c"}, v \in {1}}
Size == 2
Refs == [reg : {<<>>, <<<<104>>>>, << <<>> >>}, im : {<<>>, <<97>>, <<97, 47, 98>>}, tag : {<<>>, <<<<49>>>>, << <<>> >>}, hash : {<<>>, <<<<102>>>>, << <<>> >>}]

VARIABLES one, two, turn
vars == <<one, two, turn>>
New(s) == [sp |-> s, ps |-> <<>>]
Init == /\ \E i, k \in 1..Len(Spans) : one = New(Spans[i]) /\ two = New(Spans[k])
        /\ turn = 1
Add1 == /\ turn = 1 /\ Len(one.ps) < Size /\ \E p \in Adds : one' = [one EXCEPT !.ps = Append(@, p)]
        /\ UNCHANGED <<two, turn>>
Add2 == /\ Len(two.ps) < Size /\ \E p \in Adds : two' = [two EXCEPT !.ps = Append(@, p)]
        /\ turn' = 2 /\ UNCHANGED one
Next == Add1 \/ Add2
Spec == Init /\ [][Next]_vars

\* building: pieces are kept in order, nothing else changes
Kept == [][/\ one'.sp = one.sp /\ SubSeq(one'.ps, 1, Len(one.ps)) = one.ps
           /\ two'.sp = two.sp /\ SubSeq(two'.ps, 1, Len(two.ps)) = two.ps
           /\ ShownText(one') = ShownText(one) \o (IF Len(one'.ps) > Len(one.ps) /\ one'.ps[Len(one'.ps)].t = "s" THEN one'.ps[Len(one'.ps)].c ELSE <<>>)]_vars
\* a total order that agrees with equality
Order == LET a == Compared(one, two) b == Compared(two, one) IN
  /\ a.cmp = -b.cmp /\ a.acmp = -b.acmp /\ a.scmp = -b.scmp
  /\ (a.cmp = 0) = a.eq /\ (a.acmp = 0) = a.aeq /\ (a.scmp = 0) = a.seq /\ a.eq = b.eq
  /\ Compared(one, one).cmp = 0
\* a text comes before every longer one that begins with it
Begins == [][CmpText(one, one') \in {0, -1} /\ CmpText(two, two') \in {0, -1}]_vars
TheRefs == IF one.ps = <<>> /\ two.ps = <<>> THEN SetToSeq(Refs) ELSE <<>>
Emit == PrintT(ToJson([t |-> "val", xs |-> <<one, two>>, refs |-> TheRefs,
  x |-> [died |-> FALSE, vs |-> <<Holds(one), Holds(two)>>, rel |-> <<Compared(one, one), Compared(one, two), Compared(two, one), Compared(two, two)>>,
         shown |-> [i \in 1..Len(TheRefs) |-> ShownRef(TheRefs[i])]]]))
============================================================================
