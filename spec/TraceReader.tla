---------------------------- MODULE TraceReader ---------------------------
(* Trace validation of reads.  rec.log holds what every read returned: n > 0   *)
(* bytes, 0 the end, -1 an interruption, below that a failure.  A record of     *)
(* kind "bigr" is about the bytes h u u ... u z with n units: once a further   *)
(* unit leaves the decoder as it was, it is known where any number leave it.   *)
EXTENDS Reader, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id, l
tvars == <<rvars, id, l>>
Rec == Recs[id]
Log == Rec.log
IsBig == Rec.t = "bigr"
Part(b) == [ok |-> b.ok, need |-> b.need, lo |-> b.lo, hi |-> b.hi, acc |-> b.acc]
Init == id \in 1..Len(Recs) /\ l = 1 /\ RInit(IF Recs[id].t = "bigr" THEN Recs[id].h \o Recs[id].u \o Recs[id].u \o Recs[id].z ELSE Recs[id].b)
Is(c) == ~IsBig /\ l <= Len(Log) /\ c /\ l' = l + 1 /\ UNCHANGED id
Next == \/ Is(~IsBig /\ l <= Len(Log) /\ Log[l] > 0) /\ Deliver(Log[l])
        \/ Is(~IsBig /\ l <= Len(Log) /\ Log[l] = -1) /\ Interrupt
        \/ Is(~IsBig /\ l <= Len(Log) /\ Log[l] < -1) /\ Fail
        \/ Is(~IsBig /\ l <= Len(Log) /\ Log[l] = 0) /\ Eof
\* the run is over when the log is, or when the caller went on reading after the end
Over == IF IsBig THEN TRUE ELSE (l > Len(Log) \/ rst # "reading")
Whole == Decoded(bytes)
Clauses ==
  LET o == Rec.o
      fails == rst = "failed" \/ ~Complete(Whole)
      cs == << <<"an outcome", ~Rec.died>>,
               <<"a failed read or bad UTF-8 is a read error", ~Rec.died /\ fails => o.r = "read">>,
               <<"same outcome as the complete text", ~Rec.died /\ ~fails => Rec.eq>>,
               <<"read to the end", ~Rec.died /\ ~fails => rst = "eof">>,
               <<"content", ~Rec.died /\ ~fails /\ o.r = "ok" => Rec.content = Whole.text>> >>
      bad == SelectSeq(cs, LAMBDA c : ~c[2])
  IN [i \in 1..Len(bad) |-> bad[i][1]]
BigClauses ==
  LET a == Decoded(Rec.h \o Rec.u)
      b == Decoded(Rec.h \o Rec.u \o Rec.u)
      total == Len(Rec.h) + Rec.n * Len(Rec.u) + Len(Rec.z)
      fails == Rec.fail >= 0 \/ ~Complete(Whole)
      cs == << <<"an outcome", ~Rec.died /\ Rec.r # "panic">>,
               <<"a failed read or bad UTF-8 is a read error", ~Rec.died /\ fails => Rec.r = "read">>,
               <<"same outcome as the complete text", ~Rec.died /\ ~fails => Rec.eq>>,
               <<"read to the end", ~Rec.died /\ ~fails => Rec.ended /\ Rec.got = total>> >>
      bad == SelectSeq(cs, LAMBDA c : ~c[2])
  IN IF Part(a) # Part(b) \/ Rec.n < 2 THEN <<>> ELSE [i \in 1..Len(bad) |-> bad[i][1]]
Report == Over => LET c == IF IsBig THEN BigClauses ELSE Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
Done == Over /\ UNCHANGED tvars
TNext == Next \/ Done
===========================================================================
