---------------------------- MODULE TraceLayout ---------------------------
(* Trace validation of pairs of documents that differ in layout.               *)
EXTENDS Layout, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id
tvars == <<pvars, id>>
Rec == Recs[id]
PartsA == [i \in 1..Len(Rec.parts) |-> [c |-> Rec.parts[i].c, t |-> Rec.parts[i].a]]
PartsB == [i \in 1..Len(Rec.parts) |-> [c |-> Rec.parts[i].c, t |-> Rec.parts[i].b]]
\* the second document is parsed by the state machine, the first by the function
Init == id \in 1..Len(Recs) /\ Init0(Recs[id].d2)
Next == (Next0 /\ UNCHANGED id) \/ (Done /\ UNCHANGED tvars)
Legal == /\ SameUpToLayout(Rec.d, PartsA, Rec.d2, PartsB)
         /\ LET p == Parse(Rec.d) IN SameMeaning(p.res = "ok", p.ins, Outcome = "ok", out)
Clauses ==
  IF Rec.died THEN <<"an outcome">>
  ELSE IF ~Legal THEN <<>>
  ELSE IF (Rec.o.r = "ok") # (Rec.o2.r = "ok") THEN <<"accepted alike">>
  ELSE IF ~SameMeaning(Rec.o.r = "ok", Rec.o.ins, Rec.o2.r = "ok", Rec.o2.ins) THEN <<"same values">>
  ELSE <<>>
Report == Done => /\ (LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>))
                  /\ (~Rec.died /\ ~Legal => PrintT(<<"SKIP", id>>))
===========================================================================
