---------------------------- MODULE TraceStages ---------------------------
(* Trace validation of stages and lookups.  The stages are built up from the   *)
(* instructions that the library reported for the document, and compared with   *)
(* the stages and the lookups that it reported.                                 *)
EXTENDS Stages, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACES)
Ps == IOEnv.PROP
VARIABLES id, l, sts
tvars == <<id, l, sts>>
Rec == Recs[id]
Ins == Rec.o.ins
More == l <= Len(Ins)
Init == id \in 1..Len(Recs) /\ l = 1 /\ sts = <<>>
Open == More /\ Ins[l].k = "FROM" /\ sts' = Opened(sts, Ins[l], l) /\ l' = l + 1 /\ UNCHANGED id
Join == More /\ Ins[l].k # "FROM" /\ sts # <<>> /\ sts' = Joined(sts, l) /\ l' = l + 1 /\ UNCHANGED id
Early == More /\ Ins[l].k # "FROM" /\ sts = <<>> /\ l' = l + 1 /\ UNCHANGED <<id, sts>>
Next == Open \/ Join \/ Early \/ (~More /\ UNCHANGED tvars)

StPart(s) == [ix |-> s.ix, nm |-> s.nm, ins |-> s.ins]
Clauses ==
  IF Rec.died THEN <<"an outcome">>
  ELSE IF Rec.o.r # "ok" THEN <<>>
  ELSE LET st == Rec.st
           lookups(f(_, _), got) == \A j \in 1..Len(got) : got[j].got = f(sts, got[j].q)
           cs ==
       CASE Ps = "C18" -> << <<"number of stages", Len(st) = Len(sts)>>,
                             <<"partition", [j \in 1..Len(st) |-> StPart(st[j])] = [j \in 1..Len(sts) |-> StPart(sts[j])]>>,
                             <<"index of FROM", \A j \in 1..Len(sts) : Ins[sts[j].ins[1]].ix = j - 1>>,
                             <<"every way of iterating", \A j \in 1..Len(Rec.ways) : Rec.ways[j]>> >>
         [] Ps = "C19" -> << <<"parents", [j \in 1..Len(st) |-> st[j].pa] = [j \in 1..Len(sts) |-> sts[j].pa]>>,
                             <<"roots", [j \in 1..Len(st) |-> st[j].ro] = [j \in 1..Len(sts) |-> sts[j].ro]>> >>
         [] Ps = "C20" -> << <<"lookup by name", lookups(ByName, Rec.byname)>>,
                             <<"lookup by string", lookups(ByString, Rec.bystr)>>,
                             <<"argument index", \A j \in 1..Len(Rec.args) :
                                  LET x == Rec.args[j] IN x.s + 1 <= Len(sts) => x.got = ArgIndex(Ins, sts[x.s + 1], x.q)>> >>
           bad == SelectSeq(cs, LAMBDA c : ~c[2])
       IN [j \in 1..Len(bad) |-> bad[j][1]]
Report == ~More => LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
===========================================================================
