------------------------------- MODULE SubstM ------------------------------
(* Variable substitution (C16) as a stack machine: one frame for the text and *)
(* one for every value being expanded in it.                                  *)
EXTENDS Image

VARIABLES src,     \* the text to substitute in
          env,     \* <<name, value>> pairs
          max,     \* nesting allowed
          stack,   \* frames [s |-> text, p |-> position], the innermost last
          res,     \* output so far
          used,    \* variables substituted so far
          sst      \* "running", "done", "failed"
mvars == <<src, env, max, stack, res, used, sst>>

MInit(s, vs, d) == /\ src = s /\ env = vs /\ max = d
                   /\ stack = <<[s |-> s, p |-> 1]>>
                   /\ res = <<>> /\ used = {} /\ sst = "running"
Top == stack[Len(stack)]
AtEnd == Top.p > Len(Top.s)
Here2 == RefAt(Top.s, Top.p)
Advance(p) == [stack EXCEPT ![Len(stack)].p = p]
Copy1 == /\ sst = "running" /\ ~AtEnd /\ Here2.e = 0
         /\ res' = Append(res, At(Top.s, Top.p))
         /\ stack' = Advance(Top.p + 1)
         /\ UNCHANGED <<src, env, max, used, sst>>
\* the frames below the innermost are the nesting so far
Enter == /\ sst = "running" /\ ~AtEnd /\ Here2.e # 0
         /\ Len(stack) <= max
         /\ Here2.n \in Defined(env)
         /\ used' = used \cup {Here2.n}
         /\ stack' = Append(Advance(Here2.e), [s |-> Lookup(env, Here2.n)[1], p |-> 1])
         /\ UNCHANGED <<src, env, max, res, sst>>
Leave == /\ sst = "running" /\ AtEnd /\ Len(stack) > 1
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ UNCHANGED <<src, env, max, res, used, sst>>
Finish == /\ sst = "running" /\ AtEnd /\ Len(stack) = 1
          /\ sst' = "done" /\ UNCHANGED <<src, env, max, stack, res, used>>
GiveUp == /\ sst = "running" /\ ~AtEnd /\ Here2.e # 0
          /\ (Len(stack) > max \/ Here2.n \notin Defined(env))
          /\ sst' = "failed" /\ UNCHANGED <<src, env, max, stack, res, used>>
SubstStep == Copy1 \/ Enter \/ Leave \/ Finish \/ GiveUp
Stopped == sst # "running"

\* no nesting beyond what is allowed
Bounded == Len(stack) <= max + 1
\* the machine computes the function, and the function is what is stated
AsFunction == Stopped => LET f == Subst(src, env, max) IN
                         f.ok = (sst = "done") /\ (f.ok => f.v = res /\ f.used = used)
Stated(s, vs, d, ok, us) ==
  LET need == Needed(s, vs) IN
  /\ ok = (need \subseteq Defined(vs) /\ NeededDepth(s, vs) <= d)
  /\ (ok => us = need)
AsStated == Stopped => Stated(src, env, max, sst = "done", used)
\* text without variables is left alone
Identity == sst = "done" /\ Refs(src) = {} => res = src
===========================================================================
