---------------------------- MODULE TraceValues ----------------------------
(* Trace validation of values.  "val": texts built by the recorded series of     *)
(* pieces, which is replayed here.  "eqs": instructions and documents that were  *)
(* compared; two are equal exactly when all their parts are.                     *)
EXTENDS Values, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id, l, built        \* the record, how many pieces have been added, the texts so far
tvars == <<id, l, built>>
Rec == Recs[id]
Xs == IF Rec.t = "val" THEN Rec.xs ELSE <<>>
Init == id \in 1..Len(Recs) /\ l = 0 /\ built = IF Recs[id].t = "val" THEN [i \in 1..Len(Recs[id].xs) |-> [sp |-> Recs[id].xs[i].sp, ps |-> <<>>]] ELSE <<>>
More == \E i \in 1..Len(Xs) : Len(Xs[i].ps) > l
Add == /\ More /\ l' = l + 1 /\ UNCHANGED id
       /\ built' = [i \in 1..Len(Xs) |-> IF Len(Xs[i].ps) > l THEN [built[i] EXCEPT !.ps = Append(@, Xs[i].ps[l + 1])] ELSE built[i]]
Next == Add \/ (~More /\ UNCHANGED tvars)
N == Len(built)
ValClauses ==
  << <<"what it holds", Rec.vs = [i \in 1..N |-> Holds(built[i])]>>,
     <<"comparison", Rec.rel = [q \in 1..(N * N) |-> Compared(built[1 + ((q - 1) \div N)], built[1 + ((q - 1) % N)])]>>,
     <<"references", Len(Rec.shown) = Len(Rec.refs) /\ \A i \in 1..Len(Rec.refs) : Rec.shown[i] \in MayShow(Rec.refs[i])>> >>
EqsClauses ==
  << <<"equal when all parts are", \A q \in 1..Len(Rec.eq) : LET e == Rec.eq[q] IN (e[3] = 1) = (Rec.vals[e[1] + 1] = Rec.vals[e[2] + 1])>>,
     <<"unequal and equal are opposites", \A q \in 1..Len(Rec.eq) : Rec.eq[q][4] = 1 - Rec.eq[q][3]>>,
     <<"documents", \A q \in 1..Len(Rec.docs) : Rec.docs[q].eq = (Rec.docs[q].a = Rec.docs[q].b)>>,
     <<"built from its pieces", \A q \in 1..Len(Rec.built) : Rec.built[q]>> >>
Clauses ==
  LET cs == IF Rec.died THEN << <<"an outcome", FALSE>> >> ELSE IF Rec.t = "val" THEN ValClauses ELSE EqsClauses
      b == SelectSeq(cs, LAMBDA c : ~c[2])
  IN [i \in 1..Len(b) |-> b[i][1]]
Report == ~More => LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
============================================================================
