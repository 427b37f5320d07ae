-------------------------------- MODULE Gen -------------------------------
(* Model checking of the parser on document families.  A document is built    *)
(* slot by slot, then the parser runs on it.  Every finished run is checked    *)
(* against the property, and printed together with the outcome, so that the    *)
(* same document can be given to the real library.                             *)
EXTENDS Dockerfile, Judge, Typed, Families, Json

Cfg == JsonDeserialize(IOEnv.CONFIG)          \* property and families of this run
Ps == Cfg.prop
Tables == TLCEval([f \in 1..Len(Cfg.families) |-> TLCEval(Fam(Cfg.families[f]))])

VARIABLES fam, slot
Slots == Tables[fam]
gvars == <<pvars, fam, slot>>

Init == /\ doc = <<>> /\ fam \in 1..Len(Tables) /\ slot = 1 /\ st = "build"
        /\ off = <<>> /\ pos = 0 /\ out = <<>> /\ ga = <<>> /\ froms = 0 /\ bad = {} /\ left = 0
Fill == /\ st = "build" /\ slot <= Len(Slots)
        /\ \E i \in 1..Len(Slots[slot]) : doc' = doc \o Slots[slot][i]
        /\ slot' = slot + 1
        /\ UNCHANGED <<off, pos, st, out, ga, froms, bad, left, fam>>
Go == /\ st = "build" /\ slot > Len(Slots)
      /\ off' = Offsets(doc) /\ pos' = 1 /\ st' = "running"
      /\ UNCHANGED <<doc, out, ga, froms, bad, left, slot, fam>>
Next == Fill \/ Go \/ (Next0 /\ UNCHANGED <<slot, fam>>)
Spec == Init /\ [][Next]_gvars

Finished == st \in {"accepted", "rejected"}
SpecView == [res |-> Outcome, ins |-> out, ga |-> ga, bad |-> bad, left |-> left]
\* the specification's own outcome, as an observation
Expected == [r |-> IF Outcome = "ok" THEN "ok" ELSE IF Outcome = "syntax" THEN "syntax" ELSE CHOOSE b \in bad : TRUE,
             pos |-> IF Outcome = "syntax" THEN off[left] ELSE -1, same |-> TRUE,
             ins |-> IF Outcome = "ok" THEN out ELSE <<>>, ga |-> IF Outcome = "ok" THEN ga ELSE <<>>]

Holds == Finished => JudgeParse(Ps, doc, off, SpecView, Expected) = <<>>
Types == st # "build" => TypeOK
OneAction == Functional
SameAsFunction == Finished => AgreesWithParse
Progress == [][st = "running" => (pos' > pos \/ st' # "running")]_gvars

Case ==
  CASE Ps = "C01" -> [t |-> "e", d |-> doc, n |-> 1 + (Len(doc) % 4), x |-> [died |-> FALSE, eq |-> <<TRUE, TRUE, TRUE, TRUE, TRUE>>]]
    [] Ps = "C23" -> [t |-> "typ", d |-> doc, x |-> [died |-> FALSE, ty |-> IF Outcome = "ok" THEN [i \in 1..Len(out) |-> TypedOf(out[i])] ELSE <<>>]]
    [] OTHER -> [t |-> "p", d |-> doc, x |-> [o |-> Expected]]
Emit == Finished => PrintT(ToJson(Case))
===========================================================================
