---------------------------- MODULE TraceResolve --------------------------
(* Trace validation of global arguments and resolution.  The instructions the  *)
(* library reported are gone through one by one to collect the global          *)
(* arguments; then every recorded lookup and resolution is compared.           *)
EXTENDS Resolve, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES id, l, gargs, open
tvars == <<id, l, gargs, open>>
Rec == Recs[id]
Ins == Rec.o.ins
Init == id \in 1..Len(Recs) /\ l = 1 /\ gargs = <<>> /\ open = TRUE
More == l <= Len(Ins)
Global == More /\ open /\ Ins[l].k = "ARG" /\ gargs' = Append(gargs, Ins[l]) /\ l' = l + 1 /\ UNCHANGED <<id, open>>
Close == More /\ open /\ Ins[l].k = "FROM" /\ open' = FALSE /\ l' = l + 1 /\ UNCHANGED <<id, gargs>>
Other == More /\ (~open \/ Ins[l].k \notin {"ARG", "FROM"}) /\ l' = l + 1 /\ UNCHANGED <<id, open, gargs>>
Next == Global \/ Close \/ Other \/ (~More /\ UNCHANGED tvars)
SetOf(q) == {q[k] : k \in 1..Len(q)}
ResClauses(c) ==
  LET r == ResolveText(Ins, c.from) IN
  << <<"resolved", c.got = r.got>>, <<"resolved without context", c.plain = r.got>>,
     <<"variables used", c.got # <<>> /\ r.got # <<>> => SetOf(c.used) = r.used>> >>
Clauses ==
  IF Rec.died THEN <<"an outcome">>
  ELSE IF Rec.o.r # "ok" THEN <<>>
  ELSE LET cs == << <<"global arguments", Rec.o.ga = gargs>> >>
                 \o Flatten([k \in 1..Len(Rec.res) |-> ResClauses(Rec.res[k])])
                 \o [k \in 1..Len(Rec.gets) |-> <<"lookup", Rec.gets[k].got = ArgNamed(gargs, Rec.gets[k].n, 1)>>]
           bad == SelectSeq(cs, LAMBDA c : ~c[2])
       IN [k \in 1..Len(bad) |-> bad[k][1]]
Report == ~More => LET c == Clauses IN c = <<>> \/ PrintT(<<"BAD", id, c>>)
SameGlobals == ~More => gargs = ArgsBefore(Ins, 1)
===========================================================================
