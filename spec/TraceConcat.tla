---------------------------- MODULE TraceConcat ----------------------------
(* Trace validation of cut documents: the whole is parsed by the state machine; *)
(* what was recorded for it is compared with what was recorded for its parts     *)
(* and for the text of each of its instructions.                                *)
EXTENDS Concat, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id, cut          \* the record and which of its cuts
tvars == <<pvars, id, cut>>
Rec == Recs[id]
Init == /\ id \in 1..Len(Recs) /\ cut \in 0..Len(Recs[id].cuts)          \* 0: the instructions alone
        /\ doc = <<>> /\ off = <<>> /\ pos = 0 /\ st = "load" /\ out = <<>> /\ ga = <<>> /\ froms = 0 /\ bad = {} /\ left = 0
Load == /\ st = "load" /\ doc' = Rec.d /\ off' = Offsets(doc') /\ pos' = 1 /\ st' = "running"
        /\ UNCHANGED <<out, ga, froms, bad, left, id, cut>>
Finished == st \in {"accepted", "rejected"}
Next == Load \/ (Next0 /\ UNCHANGED <<id, cut>>) \/ (Finished /\ UNCHANGED tvars)

C == Rec.cuts[cut] + 1
Front == SubSeq(doc, 1, C - 1)
Shift == off[C] - off[1]
A == Rec.parts[cut][1]
B == Rec.parts[cut][2]
W == Rec.o
Free == Closed(Front, Parse(Front))
Inner == Outcome = "ok" /\ Outside(off, out, C)
CutClauses ==
  << <<"both parts are accepted", W.r = "ok" /\ Inner => A.r = "ok" /\ B.r = "ok">>,
     <<"the whole is accepted when the rest is", Free /\ A.r = "ok" => (W.r = "ok") = (B.r = "ok")>>,
     <<"rejected alike", Free /\ A.r = "ok" /\ W.r # "ok" => W.r = B.r>>,
     <<"rejected at the same place", Free /\ A.r = "ok" /\ W.r = "syntax" /\ B.r = "syntax" => W.pos = B.pos + Shift>>,
     <<"the instructions of the parts", A.r = "ok" /\ W.r = "ok" /\ B.r = "ok" => W.ins = JoinIns(A.ins, B.ins, Shift)>>,
     <<"the global arguments of the parts", A.r = "ok" /\ W.r = "ok" /\ B.r = "ok" => W.ga = JoinGa(A.ins, A.ga, B.ga, Shift)>> >>
AloneClauses ==
  IF W.r # "ok" \/ Outcome # "ok" THEN <<>>
  ELSE << <<"an instruction alone", \A q \in 1..Len(W.ins) : q <= Len(Rec.alone) /\ Rec.alone[q].r = "ok" /\ Rec.alone[q].ins = <<AloneIs(W.ins[q])>> >> >>
Clauses ==
  LET cs == IF Rec.died THEN << <<"an outcome", FALSE>> >> ELSE IF cut = 0 THEN AloneClauses ELSE IF LineStart(doc, C) /\ (Free \/ Inner) THEN CutClauses ELSE <<>>
      b == SelectSeq(cs, LAMBDA c : ~c[2])
  IN [i \in 1..Len(b) |-> b[i][1]]
Report == Finished => LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
============================================================================
