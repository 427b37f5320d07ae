--------------------------- MODULE TraceRefScan ---------------------------
EXTENDS RefScan, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id
tvars == <<fvars, id>>
Rec == Recs[id]
Init == id \in 1..Len(Recs) /\ FInit(Recs[id].d)
Next == (ScanRef /\ UNCHANGED id) \/ (End /\ UNCHANGED tvars)
Clauses ==
  IF Rec.died THEN <<"an outcome">>
  ELSE LET cs == RefRules(Rec.d, Rec.ref) \o
                 << <<"scan", Rec.ref = Scanned>>, <<"shown", Rec.shown = Rec.d>>,
                    <<"parsed again", Rec.again = Rec.ref>>, <<"shown again", Rec.shown2 = Rec.shown>> >>
           bad == SelectSeq(cs, LAMBDA c : ~c[2])
       IN [k \in 1..Len(bad) |-> bad[k][1]]
Report == End => LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
===========================================================================
