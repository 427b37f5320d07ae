------------------------------ MODULE Layout ------------------------------
(* Layout (C07).  A document is a sequence of parts; a part has a class:      *)
(*   "frag"  text that matters       "kw"  a keyword, in any letter case      *)
(*   "sep"   blanks, continuations   "gap" the same or nothing                *)
(*   "ind"   blanks or nothing       "nl"  a line break, and any comment and  *)
(*                                         blank lines                        *)
(* Two documents that differ in the layout of their parts mean the same.      *)
EXTENDS Props, Dockerfile

RECURSIVE LineFill(_, _)
\* comment and blank lines, each with its line break
LineFill(s, i) ==
  LET j == SkipBlanks(s, i)
      e == IF At(s, j) = HASH THEN LineEnd(s, j) ELSE j
  IN IF BreakEnd(s, e) # 0 THEN LineFill(s, BreakEnd(s, e)) ELSE i
\* is t, standing at i in s, layout of class c?
PartOK(s, i, c, t) ==
  LET e == i + Len(t) IN
  CASE c = "frag" -> TRUE
    [] c = "kw" -> \A k \in 1..Len(t) : IsAlpha(t[k])
    [] c = "sep" -> SepEnd(s, i) = e
    [] c = "gap" -> GapEnd(s, i) = e
    [] c = "ind" -> SkipBlanks(s, i) = e
    [] c = "nl" -> LET b == BreakEnd(s, SkipBlanks(s, i)) IN b # 0 /\ b <= e /\ LineFill(s, b) = e
\* parts: sequence of [c, t]; PartsOK: they make up s, and are what they claim to be
RECURSIVE PartsFrom(_, _, _, _)
PartsFrom(s, ps, k, i) ==
  IF k > Len(ps) THEN i = Len(s) + 1
  ELSE /\ i + Len(ps[k].t) <= Len(s) + 1
       /\ Slice(s, i, i + Len(ps[k].t)) = ps[k].t
       /\ PartOK(s, i, ps[k].c, ps[k].t)
       /\ PartsFrom(s, ps, k + 1, i + Len(ps[k].t))
PartsOK(s, ps) == PartsFrom(s, ps, 1, 1)
SamePart(p, q) ==
  /\ p.c = q.c
  /\ p.c = "frag" => p.t = q.t
  /\ p.c = "kw" => LowerSeq(p.t) = LowerSeq(q.t)
SameUpToLayout(s, ps, s2, qs) ==
  /\ Len(ps) = Len(qs)
  /\ \A k \in 1..Len(ps) : SamePart(ps[k], qs[k])
  /\ PartsOK(s, ps) /\ PartsOK(s2, qs)

\* two outcomes agree in everything but spans
SameMeaning(ok1, ins1, ok2, ins2) == ok1 = ok2 /\ (ok1 => Mean(ins1) = Mean(ins2))
SpecSame(p, q) == SameMeaning(p.res = "ok", p.ins, q.res = "ok", q.ins)
===========================================================================
