------------------------------- MODULE Stages -----------------------------
(* Build stages (C18-C20).  The stages of a document come about by going      *)
(* through its instructions one by one: a FROM opens a stage, everything else  *)
(* joins the open one.  A stage is                                             *)
(*   ix  index      nm  name, if any    ins  positions of its instructions      *)
(*   pa  parent     ro  root            as [t, im, ref, ix, sh]                 *)
EXTENDS Props

ScratchWord == T("scratch")
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
ImageParent(ref) == [t |-> "image", im |-> ShowRef(ref), ref |-> <<ref>>, ix |-> -1, sh |-> ShowRef(ref)]
StageParent(n) == [t |-> "stage", im |-> <<>>, ref |-> <<>>, ix |-> n, sh |-> Digits(n)]
ScratchParent == [t |-> "scratch", im |-> <<>>, ref |-> <<>>, ix |-> -1, sh |-> ScratchWord]

\* position of the first of these stages with that name (ignoring case), or 0
RECURSIVE NamedFrom(_, _, _)
NamedFrom(sts, name, j) == IF j > Len(sts) THEN 0
                           ELSE IF sts[j].nm # <<>> /\ sts[j].nm[1] = LowerSeq(name) THEN j ELSE NamedFrom(sts, name, j + 1)
Named(sts, name) == NamedFrom(sts, name, 1)

Opened(sts, m, l) ==            \* the FROM instruction m, the l-th one, opens a stage
  LET im == LowerSeq(m.im.c)
      j == Named(sts, im)
      pa == IF im = ScratchWord THEN ScratchParent
            ELSE IF j # 0 THEN StageParent(j - 1) ELSE ImageParent(m.ref)
  IN Append(sts, [ix |-> Len(sts), nm |-> IF m.al = <<>> THEN <<>> ELSE <<LowerSeq(m.al[1].c)>>,
                  ins |-> <<l>>, pa |-> pa, ro |-> IF pa.t = "stage" THEN sts[j].ro ELSE pa])
Joined(sts, l) == IF sts = <<>> THEN sts ELSE [sts EXCEPT ![Len(sts)].ins = Append(@, l)]
StageStep(sts, m, l) == IF m.k = "FROM" THEN Opened(sts, m, l) ELSE Joined(sts, l)
RECURSIVE StagesFrom(_, _, _)
StagesFrom(ins, l, sts) == IF l > Len(ins) THEN sts ELSE StagesFrom(ins, l + 1, StageStep(sts, ins[l], l))
StagesOf(ins) == StagesFrom(ins, 1, <<>>)

(* ---- lookups ---- *)
MaxUsize == T("18446744073709551615")
RECURSIVE Stripped(_)
Stripped(t) == IF Len(t) > 1 /\ t[1] = 48 THEN Stripped(Tail(t)) ELSE t
RECURSIVE DigitLeq(_, _, _)
DigitLeq(a, b, j) == IF j > Len(a) THEN TRUE ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE DigitLeq(a, b, j + 1)
AllDigits(t) == t # <<>> /\ \A j \in 1..Len(t) : IsDigit(t[j])
\* an unsigned integer of 64 bits: -1 if q is not one, otherwise its value up to a bound
RECURSIVE Value(_, _, _)
Value(t, j, acc) == IF j > Len(t) \/ acc > 100000 THEN acc ELSE Value(t, j + 1, 10 * acc + t[j] - 48)
Unsigned(q) ==
  LET t == IF Len(q) > 1 /\ q[1] = PLUS THEN Tail(q) ELSE q
      d == Stripped(t)
  IN IF ~AllDigits(t) THEN -1
     ELSE IF Len(d) > 20 \/ (Len(d) = 20 /\ ~DigitLeq(d, MaxUsize, 1)) THEN -1
     ELSE Value(d, 1, 0)
ByName(sts, q) == LET j == Named(sts, q) IN IF j = 0 THEN <<>> ELSE <<j - 1>>
ByString(sts, q) == LET v == Unsigned(q) IN
                    IF v < 0 THEN ByName(sts, q) ELSE IF v < Len(sts) THEN <<v>> ELSE <<>>
RECURSIVE ArgFrom(_, _, _, _)
ArgFrom(ins, at, q, j) == IF j > Len(at) THEN <<>>
                          ELSE IF ins[at[j]].k = "ARG" /\ ins[at[j]].n.c = q THEN <<j - 1>> ELSE ArgFrom(ins, at, q, j + 1)
ArgIndex(ins, stage, q) == ArgFrom(ins, stage.ins, q, 1)

(* ---- what is stated about stages, without going through them in order ---- *)
FromPlaces(ins) == {j \in 1..Len(ins) : ins[j].k = "FROM"}
PartitionStated(ins, sts) ==
  /\ Len(sts) = Cardinality(FromPlaces(ins))
  /\ \A j \in 1..Len(sts) :
       LET q == sts[j].ins IN
       /\ sts[j].ix = j - 1
       /\ q # <<>> /\ q[1] \in FromPlaces(ins) /\ ins[q[1]].ix = j - 1
       /\ \A a \in 2..Len(q) : q[a] = q[1] + a - 1 /\ q[a] \notin FromPlaces(ins)
       /\ LET next == q[Len(q)] + 1 IN next = Len(ins) + 1 \/ next \in FromPlaces(ins)
       /\ sts[j].nm = (IF ins[q[1]].al = <<>> THEN <<>> ELSE <<LowerSeq(ins[q[1]].al[1].c)>>)
  /\ \A p \in 1..Len(ins) : Cardinality({j \in 1..Len(sts) : \E a \in 1..Len(sts[j].ins) : sts[j].ins[a] = p})
                            = IF \E f \in FromPlaces(ins) : f <= p THEN 1 ELSE 0
ParentsStated(ins, sts) ==
  \A j \in 1..Len(sts) :
    LET m == ins[sts[j].ins[1]]
        same == {e \in 1..(j - 1) : LET al == ins[sts[e].ins[1]].al IN al # <<>> /\ LowerSeq(al[1].c) = LowerSeq(m.im.c)}
        pa == sts[j].pa
    IN /\ (pa.t = "scratch") = (LowerSeq(m.im.c) = ScratchWord)
       /\ (pa.t = "stage") = (LowerSeq(m.im.c) # ScratchWord /\ same # {})
       /\ (pa.t = "stage" => pa.ix + 1 \in same /\ \A e \in same : pa.ix + 1 <= e)
       /\ (pa.t = "image" => pa.ref[1] = m.ref)
       /\ pa.sh = (CASE pa.t = "scratch" -> ScratchWord [] pa.t = "stage" -> Digits(pa.ix) [] OTHER -> ShowRef(m.ref))
       /\ sts[j].ro.t \in {"image", "scratch"}
       /\ sts[j].ro = (IF pa.t = "stage" THEN sts[pa.ix + 1].ro ELSE pa)
===========================================================================
