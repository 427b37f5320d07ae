--------------------------- MODULE TraceRelSpan ---------------------------
(* Trace validation of relative spans: for every recorded span the scan is     *)
(* run and its result compared.  A record of kind "bigrel" is about a span in   *)
(* the part z of the text h u u ... u z with n units: line and column are       *)
(* stated for a few units and grow by the same amount with every further one.   *)
EXTENDS RelSpan, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id, k
tvars == <<svars, id, k>>
PosAt(o, x) == CHOOSE p \in 1..Len(o) : o[p] = x
Has(o, x) == \E p \in 1..Len(o) : o[p] = x
Valid(o, sp) == Has(o, sp[1]) /\ Has(o, sp[2]) /\ sp[1] <= sp[2]
Died == Recs[id].died
Obs == Recs[id].rel[k]
IsBig == Recs[id].t = "bigrel"
RECURSIVE Times(_, _)
Times(t, n) == IF n = 0 THEN <<>> ELSE t \o Times(t, n - 1)
Sample(r, n) == r.h \o Times(r.u, n) \o r.z
Before(r, n) == Len(r.h) + n * Len(r.u) + PosAt(Offsets(r.z), r.sp[1])        \* position of the span's start
Few == 2
Init == /\ id \in 1..Len(Recs)
        /\ SInit(IF Recs[id].t = "bigrel" THEN Sample(Recs[id], Few) ELSE Recs[id].d)
        /\ IF Recs[id].t = "bigrel"
           THEN /\ k = 0 /\ a = Before(Recs[id], Few) /\ b = Before(Recs[id], Few)
           ELSE IF Recs[id].died THEN k = 0 /\ a = 1 /\ b = 1
           ELSE /\ k \in {i \in 1..Len(Recs[id].rel) : Valid(toff, Recs[id].rel[i].sp)}
                /\ a = PosAt(toff, Obs.sp[1]) /\ b = PosAt(toff, Obs.sp[2])
Next == (Scan /\ UNCHANGED <<id, k>>) \/ (Arrived /\ UNCHANGED tvars)
Clauses ==
  LET cs == IF Died THEN <<<<"an outcome", FALSE>>>>
            ELSE << <<"line", Obs.line = line>>, <<"start", Obs.rs[1] = RelStart>>,
                    <<"length", Obs.rs[2] - Obs.rs[1] = toff[b] - toff[a]>> >>
      bad == SelectSeq(cs, LAMBDA c : ~c[2])
  IN [i \in 1..Len(bad) |-> bad[i][1]]
BigClauses ==
  LET r == Recs[id]
      next == Sample(r, Few + 1)
      line1 == LineDecl(next, Before(r, Few + 1))
      col1 == LET o == Offsets(next) IN o[Before(r, Few + 1)] - o[BolDecl(next, Before(r, Few + 1))]
      grown(x, y) == x + (r.n - Few) * (y - x)
      cs == << <<"an outcome", ~r.died>>,
               <<"line", ~r.died => r.line = grown(line, line1)>>,
               <<"start", ~r.died => r.rs[1] = grown(RelStart, col1)>>,
               <<"length", ~r.died => r.rs[2] - r.rs[1] = r.sp[2] - r.sp[1]>> >>
      bad == SelectSeq(cs, LAMBDA c : ~c[2])
  IN [i \in 1..Len(bad) |-> bad[i][1]]
Report == Arrived => LET c == IF IsBig THEN BigClauses ELSE Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
===========================================================================
