----------------------------- MODULE TraceEdit ----------------------------
(* Trace validation of splicing items of a parsed document and parsing again.   *)
(* The recorded splices are done one by one on the specification's side; what    *)
(* the second parse reported has to be what the first one reported with exactly  *)
(* those items changed, provided that the replacements are suitable.             *)
EXTENDS Dockerfile, Edit, Splicing, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id, l, ok
tvars == <<pvars, svars, id, l, ok>>
Rec == Recs[id]
Ops == Rec.ops
Init == /\ id \in 1..Len(Recs) /\ l = 1 /\ ok = TRUE /\ SInit(Recs[id].d)
        /\ doc = <<>> /\ off = <<>> /\ pos = 0 /\ st = "load" /\ out = <<>> /\ ga = <<>>
        /\ froms = 0 /\ bad = {} /\ left = 0
Load == /\ st = "load" /\ doc' = Rec.d /\ off' = Offsets(doc') /\ pos' = 1 /\ st' = "running"
        /\ UNCHANGED <<out, ga, froms, bad, left, id, l, ok, svars>>
Parsed == st \in {"accepted", "rejected"}
\* the item as the specification sees it, if it is there and the replacement suits
Mine(o) == IF ~Has(out, o) THEN <<>>
           ELSE LET it == Find3(out, o) cls == ClassOf(doc, off, out, it)
                IN IF Suits(cls, o.r) THEN <<[i |-> o.i, f |-> o.f, j |-> o.j, sp |-> it.sp, v |-> Denotes(cls, o.r)]>> ELSE <<>>
EditStep == /\ Parsed /\ st = "accepted" /\ Outcome = "ok" /\ l <= Len(Ops) /\ ok /\ l' = l + 1
            /\ LET m == Mine(Ops[l]) IN
               IF m = <<>> THEN ok' = FALSE /\ UNCHANGED svars ELSE Splice(m[1].sp, Ops[l].r) /\ UNCHANGED ok
            /\ UNCHANGED <<pvars, id>>
Over == Parsed /\ ~(st = "accepted" /\ Outcome = "ok" /\ l <= Len(Ops) /\ ok)
Next == Load \/ (Next0 /\ UNCHANGED <<id, l, ok, svars>>) \/ EditStep \/ (Over /\ UNCHANGED tvars)

Muts == [q \in 1..Len(Ops) |-> Mine(Ops[q])[1]]
Suitable == /\ Outcome = "ok" /\ ok
            /\ LET p == Parse(buf) IN p.res = "ok" /\ Mean(p.ins) = Modify(Mean(out), Muts, 1)
RealOps == [q \in 1..Len(Ops) |-> [sp |-> Ops[q].sp, r |-> Ops[q].r]]
Clauses ==
  IF Rec.died THEN <<"an outcome">>
  ELSE IF Rec.o.r # "ok" \/ Ops = <<>> THEN <<>>
  ELSE LET cs == << <<"everything else byte for byte", AllAllowed(Rec.d, RealOps) => Rec.text = Patch(Rec.d, RealOps)>>,
                    <<"accepted again", Suitable => Rec.o2.r = "ok">>,
                    <<"only these items changed", Suitable /\ Rec.o2.r = "ok" /\ (\A q \in 1..Len(Ops) : Has(Rec.o.ins, Ops[q])) =>
                        Mean(Rec.o2.ins) = Modify(Mean(Rec.o.ins), Muts, 1)>> >>
           bad2 == SelectSeq(cs, LAMBDA c : ~c[2])
       IN [q \in 1..Len(bad2) |-> bad2[q][1]]
Report == Over => /\ LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
                  /\ (Rec.died \/ Rec.o.r # "ok" \/ Ops = <<>> \/ Suitable \/ PrintT(<<"SKIP", id>>))
===========================================================================
