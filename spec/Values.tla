------------------------------- MODULE Values ------------------------------
(* Values as the sum of their parts (C26): what a text built piece by piece     *)
(* holds and shows, and how values compare.                                    *)
EXTENDS Text

(* ---- order: -1, 0 or 1 ---- *)
CmpInt(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Then(c, d) == IF c # 0 THEN c ELSE d
RECURSIVE CmpSeq(_, _, _, _)
CmpSeq(f(_, _), a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE Then(f(a[i], b[i]), IF f(a[i], b[i]) # 0 THEN 0 ELSE CmpSeq(f, a, b, i + 1))
CmpStr(a, b) == CmpSeq(CmpInt, a, b, 1)
CmpSpan(a, b) == Then(CmpInt(a[1], b[1]), CmpInt(a[2], b[2]))
CmpSpanned(a, b) == Then(CmpSpan(a.sp, b.sp), CmpStr(a.c, b.c))
\* a piece of text comes before a comment
Rank(p) == IF p.t = "s" THEN 0 ELSE 1
CmpPiece(a, b) == Then(CmpInt(Rank(a), Rank(b)), CmpSpanned(a, b))
CmpText(a, b) == Then(CmpSpan(a.sp, b.sp), CmpSeq(CmpPiece, a.ps, b.ps, 1))
CmpArray(a, b) == Then(CmpSpan(a.sp, b.sp), CmpSeq(CmpSpanned, a.es, b.es, 1))

(* ---- what is shown ---- *)
Pieces(ps, t) == SelectSeq(ps, LAMBDA p : p.t = t)
Contents(ps) == [i \in 1..Len(ps) |-> ps[i].c]
ShownText(x) == Flatten(Contents(Pieces(x.ps, "s")))
ShownRef(r) == (IF r.reg = <<>> THEN <<>> ELSE r.reg[1] \o <<SLASH>>) \o r.im
               \o (IF r.tag # <<>> THEN <<COLON>> \o r.tag[1] ELSE IF r.hash # <<>> THEN <<ATSIGN>> \o r.hash[1] ELSE <<>>)
\* with both (which parsing never gives) either one, but not both
MayShow(r) == {ShownRef(r)} \cup (IF r.hash = <<>> THEN {} ELSE {ShownRef([r EXCEPT !.tag = <<>>])})
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
ShownSpan(sp) == <<40>> \o Decimal(sp[1]) \o <<COMMA, SP>> \o Decimal(sp[2]) \o <<41>>

(* ---- a text as it is observed, and one made into an array of its pieces ---- *)
Plain1(p) == [t |-> p.t, sp |-> p.sp, c |-> p.c]
TextView(x) == [sp |-> x.sp, ps |-> [i \in 1..Len(x.ps) |-> Plain1(x.ps[i])], tx |-> ShownText(x)]
ArrayOf(x) == [sp |-> x.sp, es |-> [i \in 1..Len(x.ps) |-> [sp |-> x.ps[i].sp, c |-> x.ps[i].c]]]
Holds(x) == [text |-> TextView(x), arr |-> ArrayOf(x), strs |-> Contents(x.ps), span |-> ShownSpan(x.sp),
             env |-> [sp |-> x.sp, v |-> TextView(x)], copy |-> TRUE, parts |-> TRUE]
Compared(x, y) == [eq |-> x.sp = y.sp /\ TextView(x) = TextView(y), cmp |-> CmpText(x, y),
                   aeq |-> ArrayOf(x) = ArrayOf(y), acmp |-> CmpArray(ArrayOf(x), ArrayOf(y)), scmp |-> CmpSpan(x.sp, y.sp), seq |-> x.sp = y.sp]
============================================================================
