---------------------------- MODULE GenRelSpan ----------------------------
(* All spans of all texts of up to Size pieces.                                *)
EXTENDS RelSpan, Json, IOUtils, TLC
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Size == IF Thorough THEN 6 ELSE 5
Pieces == <<<<97>>, <<LF>>, <<CR>>, <<233>>, <<128512>>, <<8232>>>>
VARIABLES n
gvars == <<svars, n>>
Init == SInit(<<>>) /\ a = 1 /\ b = 1 /\ n = 0
Grow == /\ n < Size /\ n >= 0
        /\ \E i \in 1..Len(Pieces) : txt' = txt \o Pieces[i]
        /\ toff' = Offsets(txt') /\ n' = n + 1 /\ UNCHANGED <<a, b, scan, line, bol>>
Pick == /\ n >= 0 /\ n' = -1
        /\ \E i, j \in 1..(Len(txt) + 1) : i <= j /\ a' = i /\ b' = j
        /\ UNCHANGED <<txt, toff, scan, line, bol>>
Next == Grow \/ Pick \/ (n = -1 /\ Scan /\ UNCHANGED n)
Spec == Init /\ [][Next]_gvars
Ready == n = -1
Ok == Ready => AsDeclared /\ Monotone
Sp == <<toff[a], toff[b]>>
Emit == Ready /\ Arrived =>
  PrintT(ToJson([t |-> "rel", d |-> txt, only |-> TRUE, sp |-> <<Sp>>,
                 x |-> [died |-> FALSE, rel |-> <<[sp |-> Sp, line |-> line, rs |-> <<RelStart, RelEnd>>]>>]]))
===========================================================================
