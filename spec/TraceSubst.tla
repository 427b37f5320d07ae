---------------------------- MODULE TraceSubst ----------------------------
EXTENDS SubstM, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id
tvars == <<mvars, id>>
Rec == Recs[id]
Init == id \in 1..Len(Recs) /\ MInit(Recs[id].d, Recs[id].vars, Recs[id].depth)
Next == (SubstStep /\ UNCHANGED id) \/ (Stopped /\ UNCHANGED tvars)
SetOf(q) == {q[k] : k \in 1..Len(q)}
Clauses ==
  IF Rec.died THEN <<"an outcome">>
  ELSE LET got == Rec.res # <<>>
           before == SetOf(Rec.used0)
           cs == << <<"a result", got = (sst = "done")>>,
                    <<"the text", got /\ sst = "done" => Rec.res[1] = res>>,
                    <<"variables used", got /\ sst = "done" => SetOf(Rec.used) = before \cup used>>,
                    <<"as stated", Stated(Rec.d, Rec.vars, Rec.depth, got, IF got THEN (SetOf(Rec.used) \ before) \cup (used \cap before) ELSE {})>> >>
           bad == SelectSeq(cs, LAMBDA c : ~c[2])
       IN [k \in 1..Len(bad) |-> bad[k][1]]
Report == Stopped => LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
===========================================================================
