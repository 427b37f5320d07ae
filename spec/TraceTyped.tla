---------------------------- MODULE TraceTyped ----------------------------
(* Trace validation of typed access: the instructions reported for a document   *)
(* are gone through, and what their accessors gave is compared.                 *)
EXTENDS Typed, Integers, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id, l, wrong
tvars == <<id, l, wrong>>
Rec == Recs[id]
Ins == Rec.o.ins
Init == id \in 1..Len(Recs) /\ l = 1 /\ wrong = {}
More == l <= Len(Ins) /\ ~Rec.died
Look == /\ More /\ l' = l + 1 /\ UNCHANGED id
        /\ wrong' = IF l <= Len(Rec.ty) /\ Rec.ty[l] = TypedOf(Ins[l]) THEN wrong ELSE wrong \cup {Ins[l].k}
Next == Look \/ (~More /\ UNCHANGED tvars)
Report == ~More => IF Rec.died THEN PrintT(<<"BAD", id, <<"an outcome">>>>)
                   ELSE wrong = {} \/ PrintT(<<"BAD", id, <<"typed access", wrong>>>>)
===========================================================================
