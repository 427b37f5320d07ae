---------------------------- MODULE TraceParse ----------------------------
(* Trace validation of single parses.  Every recorded parse is replayed by    *)
(* the actions of Dockerfile; at the end of the run the recorded observation  *)
(* is judged for the property named in the environment.                       *)
EXTENDS Dockerfile, Judge, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACES)
Ps == IOEnv.PROP

VARIABLE id
tvars == <<pvars, id>>

Init == /\ id \in 1..Len(Recs)
        /\ doc = <<>> /\ off = <<>> /\ pos = 0 /\ st = "load" /\ out = <<>> /\ ga = <<>>
        /\ froms = 0 /\ bad = {} /\ left = 0
Load == /\ st = "load"
        /\ doc' = Recs[id].d
        /\ off' = Offsets(doc')
        /\ pos' = 1 /\ st' = "running"
        /\ UNCHANGED <<out, ga, froms, bad, left, id>>
Finished == st \in {"accepted", "rejected"}
\* TLC reports a deadlock if a trace gets stuck before its end
Next == Load \/ (Next0 /\ UNCHANGED id) \/ (Finished /\ UNCHANGED tvars)

SpecView == [res |-> Outcome, ins |-> out, ga |-> ga, bad |-> bad, left |-> left]
Clauses == JudgeParse(Ps, doc, off, SpecView, Recs[id].o)
\* prints the traces that break the property, and goes on with the others
Report == Finished => LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
===========================================================================
