----------------------------- MODULE GenReader ----------------------------
(* Every schedule of up to Steps reads over a set of small texts.              *)
EXTENDS Reader, Json, IOUtils, TLC
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Steps == IF Thorough THEN 5 ELSE 4
Pieces == <<T("x y"), T("\n"), <<195, 169>>, <<240, 159, 152, 128>>, <<195>>, <<255>>, <<237, 160, 128>>, <<239, 187, 191>>, <<>>, T("!"), <<226, 130>>, <<240, 144, 128>>, <<244, 144, 128, 128>>, <<192, 128>>>>
Kinds == IF Thorough THEN 0..9 ELSE {0, 1, 2}
Sizes == {1, 2, 4}

VARIABLES sched, part
gvars == <<rvars, sched, part>>
Init == \E i, j \in 1..Len(Pieces), k \in {1, 9} :
          /\ RInit(Pieces[i] \o Pieces[j] \o Pieces[k]) /\ sched = <<>> /\ part = <<i, j, k>>
More == Len(sched) < Steps
Step(x) == sched' = Append(sched, x) /\ UNCHANGED part
Next == \/ More /\ \E n \in Sizes : Deliver(IF n > Left THEN Left ELSE n) /\ Step(n)
        \/ More /\ Interrupt /\ Step(-1)
        \/ More /\ \E k \in Kinds : Fail /\ Step(-2 - k)
        \/ ~More /\ Left > 0 /\ Deliver(Left) /\ UNCHANGED <<sched, part>>
        \/ Eof /\ UNCHANGED <<sched, part>>
Spec == Init /\ [][Next]_gvars /\ WF_gvars(Next)
Emit == rst # "reading" =>
  PrintT(ToJson([t |-> "r", d |-> <<>>, b |-> bytes, sc |-> sched,
                 x |-> IF ReadFails THEN [died |-> FALSE, o |-> [r |-> "read"], eq |-> FALSE]
                       ELSE [died |-> FALSE, o |-> [same |-> TRUE], eq |-> TRUE]]))
Terminates == <>(rst # "reading")
===========================================================================
