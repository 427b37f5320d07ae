------------------------------ MODULE Image -------------------------------
(* Image references and variable substitution.  Optional values are          *)
(* sequences of length 0 or 1.                                               *)
EXTENDS Text, FiniteSets

LocalHost == T("localhost")
IsRegistry(t) == t = LocalHost \/ HasChar(t, DOT) \/ HasChar(t, COLON)

ParseRef(s) ==
  LET sl == Find(s, SLASH, 1)
      hasReg == sl # 0 /\ IsRegistry(Slice(s, 1, sl))
      reg == IF hasReg THEN <<Slice(s, 1, sl)>> ELSE <<>>
      rest == IF hasReg THEN Slice(s, sl + 1, Len(s) + 1) ELSE s
      a == Find(rest, ATSIGN, 1)
      c == Find(rest, COLON, 1)
      after(i) == <<Slice(rest, i + 1, Len(rest) + 1)>>
  IN IF a # 0 THEN [reg |-> reg, im |-> Slice(rest, 1, a), tag |-> <<>>, hash |-> after(a)]
     ELSE IF c # 0 THEN [reg |-> reg, im |-> Slice(rest, 1, c), tag |-> after(c), hash |-> <<>>]
     ELSE [reg |-> reg, im |-> rest, tag |-> <<>>, hash |-> <<>>]

ShowRef(r) ==
  (IF r.reg # <<>> THEN r.reg[1] \o <<SLASH>> ELSE <<>>) \o r.im \o
  (IF r.tag # <<>> THEN <<COLON>> \o r.tag[1]
   ELSE IF r.hash # <<>> THEN <<ATSIGN>> \o r.hash[1] ELSE <<>>)

Sha256 == T("sha256:")
ValidDigest(h) == /\ Len(h) = 71
                  /\ SubSeq(h, 1, 7) = Sha256
                  /\ \A i \in 8..71 : IsHex(h[i])

\* the rules of C15 as predicates on a reference r reported for the string s
RefRoundTrip(s, r) == ShowRef(r) = s
RefExclusive(r) == r.tag = <<>> \/ r.hash = <<>>
RefStable(r) == ParseRef(ShowRef(r)) = r
RefRegistry(s, r) ==
  IF r.reg # <<>> THEN IsRegistry(r.reg[1]) /\ ~HasChar(r.reg[1], SLASH)
  ELSE Find(s, SLASH, 1) = 0 \/ ~IsRegistry(Slice(s, 1, Find(s, SLASH, 1)))
RefName(r) == ~HasChar(r.im, ATSIGN) /\ (r.hash = <<>> => ~HasChar(r.im, COLON))
                 /\ (r.tag # <<>> => ~HasChar(r.tag[1], ATSIGN))

(* ---- variables ---- *)
\* Vars: a sequence of <<name, value>> pairs; the last pair with a name counts
RECURSIVE LookupFrom(_, _, _)
LookupFrom(vars, n, i) == IF i = 0 THEN <<>>
                          ELSE IF vars[i][1] = n THEN <<vars[i][2]>>
                          ELSE LookupFrom(vars, n, i - 1)
Lookup(vars, n) == LookupFrom(vars, n, Len(vars))

RECURSIVE WordRunV(_, _)
WordRunV(s, i) == IF IsWord(At(s, i)) THEN WordRunV(s, i + 1) ELSE i

\* the variable reference at position i: [e |-> end (0: none), n |-> name]
RefAt(s, i) ==
  IF At(s, i) # DOLLAR THEN [e |-> 0, n |-> <<>>]
  ELSE LET w == WordRunV(s, i + 1) IN
       IF w > i + 1 THEN [e |-> w, n |-> Slice(s, i + 1, w)]
       ELSE IF At(s, i + 1) = LCB
            THEN LET w2 == WordRunV(s, i + 2) IN
                 IF w2 > i + 2 /\ At(s, w2) = RCB THEN [e |-> w2 + 1, n |-> Slice(s, i + 2, w2)]
                 ELSE [e |-> 0, n |-> <<>>]
            ELSE [e |-> 0, n |-> <<>>]

NoSubst == [ok |-> FALSE, v |-> <<>>, used |-> {}]
RECURSIVE Subst(_, _, _), SubstRec(_, _, _, _, _, _)
SubstRec(s, vars, depth, i, acc, used) ==
  IF i > Len(s) THEN [ok |-> TRUE, v |-> acc, used |-> used]
  ELSE LET r == RefAt(s, i) IN
       IF r.e = 0 THEN SubstRec(s, vars, depth, i + 1, Append(acc, s[i]), used)
       ELSE IF depth = 0 THEN NoSubst
       ELSE LET val == Lookup(vars, r.n) IN
            IF val = <<>> THEN NoSubst
            ELSE LET sub == Subst(val[1], vars, depth - 1) IN
                 IF ~sub.ok THEN NoSubst
                 ELSE SubstRec(s, vars, depth, r.e, acc \o sub.v, used \cup sub.used \cup {r.n})
Subst(s, vars, depth) == SubstRec(s, vars, depth, 1, <<>>, {})

\* A second, declarative account of the same thing (C16): which variables a
\* text refers to, what it needs in total, and how deep.
RECURSIVE RefsFrom(_, _)
RefsFrom(s, i) == IF i > Len(s) THEN {}
                  ELSE LET r == RefAt(s, i) IN
                       IF r.e = 0 THEN RefsFrom(s, i + 1) ELSE {r.n} \cup RefsFrom(s, r.e)
Refs(s) == RefsFrom(s, 1)
Defined(vars) == {vars[i][1] : i \in 1..Len(vars)}
RECURSIVE Closure(_, _, _)
Closure(seen, new, vars) ==        \* new: reached in the last step
  LET next == UNION {Refs(Lookup(vars, n)[1]) : n \in new \cap Defined(vars)} \ (seen \cup new) IN
  IF new = {} THEN seen ELSE Closure(seen \cup new, next, vars)
Needed(s, vars) == Closure({}, Refs(s), vars)
Deps(n, vars) == Refs(Lookup(vars, n)[1])
\* levels of nesting; Inf when cyclic or unknown
Inf == 1000
RECURSIVE DepthOf(_, _, _)
DepthOf(names, vars, fuel) ==      \* depth needed by a text that refers to names
  IF names = {} THEN 0
  ELSE IF fuel = 0 \/ ~(names \subseteq Defined(vars)) THEN Inf
  ELSE LET ds == {DepthOf(Deps(n, vars), vars, fuel - 1) : n \in names}
           m == CHOOSE m \in ds : \A d \in ds : d <= m
       IN IF m >= Inf THEN Inf ELSE m + 1
NeededDepth(s, vars) == DepthOf(Refs(s), vars, Cardinality(Defined(vars)) + 1)
===========================================================================
