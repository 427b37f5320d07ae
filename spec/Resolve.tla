------------------------------ MODULE Resolve -----------------------------
(* Global arguments and the resolution of image references against them (C17).*)
EXTENDS Props

MaxNesting == 16
\* arguments that have a value, as pairs for substitution
RECURSIVE ValuedFrom(_, _)
ValuedFrom(args, k) ==
  IF k > Len(args) THEN <<>>
  ELSE (IF args[k].v = <<>> THEN <<>> ELSE <<<<args[k].n.c, args[k].v[1].c>>>>) \o ValuedFrom(args, k + 1)
Valued(args) == ValuedFrom(args, 1)
\* the first global argument with that name
RECURSIVE ArgNamed(_, _, _)
ArgNamed(args, name, k) == IF k > Len(args) THEN <<>>
                           ELSE IF args[k].n.c = name THEN <<args[k]>> ELSE ArgNamed(args, name, k + 1)
GlobalNamed(ins, name) == ArgNamed(ArgsBefore(ins, 1), name, 1)

\* text is a displayed reference; a result is <<reference>> with the variables used, or nothing
ResolveText(ins, text) ==
  LET f == Subst(text, Valued(ArgsBefore(ins, 1)), MaxNesting) IN
  IF f.ok THEN [got |-> <<ParseRef(f.v)>>, used |-> f.used] ELSE [got |-> <<>>, used |-> {}]

\* what is stated about it
ResolveStated(ins, text, r) ==
  LET vs == Valued(ArgsBefore(ins, 1)) IN
  /\ (r.got # <<>>) = (Needed(text, vs) \subseteq Defined(vs) /\ NeededDepth(text, vs) <= MaxNesting)
  /\ (r.got # <<>> => r.used = Needed(text, vs))
\* a declaration after the first FROM, or without a value, cannot matter
RECURSIVE Trunc(_, _)
Trunc(ins, k) == IF k > Len(ins) THEN ins ELSE IF ins[k].k = "FROM" THEN SubSeq(ins, 1, k - 1) ELSE Trunc(ins, k + 1)
OnlyGlobals(ins, text) == ResolveText(ins, text) = ResolveText(SelectSeq(Trunc(ins, 1), LAMBDA m : m.k = "ARG" /\ m.v # <<>>), text)
===========================================================================
