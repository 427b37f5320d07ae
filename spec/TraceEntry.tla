---------------------------- MODULE TraceEntry ----------------------------
(* Trace validation of the entry points (C01) and of long documents (all       *)
(* properties of a parse).  A record of kind "e" holds the outcome of parsing  *)
(* a text and how the other ways of parsing it compare.  One of kind "big" is  *)
(* about the text h u u ... u z with n units: the specification runs on it     *)
(* with a few units and so knows the outcome for any number of them.           *)
EXTENDS Scale, Judge, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACES)
Ps == IOEnv.PROP

VARIABLES id, units      \* units: how many have been put into doc (kind "big")
tvars == <<pvars, id, units>>
Rec == Recs[id]
IsBig == Rec.t = "big"
Sample(n) == Rec.h \o Times(Rec.u, n) \o Rec.z
Init == /\ id \in 1..Len(Recs) /\ units = (IF Recs[id].t = "big" THEN 3 ELSE 0)
        /\ doc = <<>> /\ off = <<>> /\ pos = 0 /\ st = "load" /\ out = <<>> /\ ga = <<>>
        /\ froms = 0 /\ bad = {} /\ left = 0
Load == /\ st = "load"
        /\ doc' = IF IsBig THEN Sample(units) ELSE Rec.d
        /\ off' = Offsets(doc')
        /\ pos' = 1 /\ st' = "running"
        /\ UNCHANGED <<out, ga, froms, bad, left, id, units>>
Finished == st \in {"accepted", "rejected"}
Next == Load \/ (Next0 /\ UNCHANGED <<id, units>>) \/ (Finished /\ UNCHANGED tvars)

Died == {"panic", "hang", "abort"}
EntryClauses ==
  Verdict(<< <<"an outcome", ~Rec.died /\ Rec.o.r \notin Died>>,
             <<"content verbatim", Rec.o.same>>,
             <<"same through every entry point, again, and on another thread",
               Rec.o.r \notin Died => \A j \in 1..Len(Rec.eq) : Rec.eq[j]>> >>)
BigClauses ==
  IF Ps = "C01"
  THEN Verdict(<< <<"an outcome", Rec.r \notin Died>>, <<"content verbatim", Rec.same>>,
                  <<"the same through every entry point and on another thread", \A j \in 1..Len(Rec.eq) : Rec.eq[j]>> >>)
  ELSE IF Rec.n < units \/ Rec.r \in Died THEN <<>>
  ELSE LET q == Parse(Sample(units + 1)) r == Parse(Sample(units + 2)) w == Parse(Sample(units + 3))
           steady == Outcome = q.res /\ q.res = r.res /\ r.res = w.res /\ bad = q.bad /\ q.bad = r.bad /\ r.bad = w.bad
           f == Facts(out, ga) g == Facts(q.ins, q.ga) h == Facts(r.ins, r.ga) i == Facts(w.ins, w.ga)
           want(j) == f[j] + (Rec.n - units) * (g[j] - f[j])
           edge(n, l) == Offsets(Sample(n))[l]
           both == Outcome = "ok" /\ Rec.r = "ok"
           wrong == {j \in 1..Len(f) : Linear(f[j], g[j], h[j]) /\ Linear(g[j], h[j], i[j]) /\ Rec.facts[j] # Unknown /\ Rec.facts[j] # want(j)}
       IN IF ~steady THEN <<>>
          ELSE Verdict(<< <<"accepted", Ps \in {"C04", "C07", "C08", "C09", "C10", "C12", "C13", "C14"} /\ Outcome = "ok" => Rec.r = "ok">>,
                          <<"rejected", Ps \in {"C04", "C07"} /\ Outcome = "syntax" => Rec.r # "ok">>,
                          <<"rule", Ps \in {"C11", "C12"} /\ bad # {} => Rec.r # "ok">>,
                          <<"kind", Ps = "C24" /\ Rec.r # "ok" => Rec.r \in (IF Outcome = "invalid" THEN bad ELSE {"syntax"})>>,
                          <<"position", Ps = "C24" /\ Outcome = "syntax" /\ Rec.r = "syntax" /\ Linear(edge(units, left), edge(units + 1, q.left), edge(units + 2, r.left)) /\ Linear(edge(units + 1, q.left), edge(units + 2, r.left), edge(units + 3, w.left)) =>
                               Rec.pos >= edge(units, left) + (Rec.n - units) * (edge(units + 1, q.left) - edge(units, left))>> >>)
               \o (IF both THEN SelectSeq(FactNames, LAMBDA nm : \E j \in wrong \cap About(Ps) : FactNames[j] = nm) ELSE <<>>)
Clauses == IF IsBig THEN BigClauses ELSE EntryClauses
Report == Finished => LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
===========================================================================
