---------------------------- MODULE TraceSplice ---------------------------
(* Trace validation of series of splices: every recorded splice is done by the *)
(* specification too, and the recorded text is compared with what has to come    *)
(* out.  Series that are not allowed are passed over.                           *)
EXTENDS Splicing, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id, l, wrong, allowed
tvars == <<svars, id, l, wrong, allowed>>
Rec == Recs[id]
Ops == Rec.ops
Init == /\ id \in 1..Len(Recs) /\ l = 1 /\ wrong = {} /\ SInit(Recs[id].d)
        /\ allowed = AllAllowed(Recs[id].d, Recs[id].ops)
More == l <= Len(Ops) /\ ~Rec.died /\ allowed
\* in a long series the text is compared after the first splices, the last, and some in between
Compared(j) == j <= 12 \/ j = Len(Ops) \/ j % 29 = 0
Step == /\ More /\ Splice(Ops[l].sp, Ops[l].r) /\ l' = l + 1 /\ UNCHANGED <<id, allowed>>
        /\ wrong' = IF Compared(l) => Rec.res[l] = Patch(orig, done') THEN wrong ELSE wrong \cup {l}
Next == Step \/ (~More /\ UNCHANGED tvars)
Refines == ~More \/ ~Compared(Len(done)) \/ buf = Patch(orig, done)
Report == ~More =>
  IF Rec.died THEN ~allowed \/ PrintT(<<"BAD", id, <<"an outcome">>>>)
  ELSE wrong = {} \/ PrintT(<<"BAD", id, <<"text after splice", wrong>>>>)
===========================================================================
