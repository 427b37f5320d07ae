------------------------------ MODULE Props -------------------------------
(* The properties of a single parse, as predicates on a text s (with its byte *)
(* offsets off) and an observation of it:                                     *)
(*   o.r    outcome: "ok", "syntax", "digest", "escape", ...                  *)
(*   o.ins  the reported instructions,  o.ga  the global arguments            *)
(*   o.pos  byte offset named by a syntax error                               *)
(* They are evaluated both on what the specification computes (model          *)
(* checking) and on what the library reported (trace validation).             *)
EXTENDS Instr

(* ---- meaning: an observation without its spans ---- *)
Cs(xs) == [i \in 1..Len(xs) |-> xs[i].c]
MeanOpt(o) == IF o = <<>> THEN <<>> ELSE <<o[1].c>>
MeanPairs(xs) == [i \in 1..Len(xs) |-> <<xs[i].n.c, xs[i].v.c>>]
MeanText(x) == [ps |-> [i \in 1..Len(x.ps) |-> <<x.ps[i].t, x.ps[i].c>>], tx |-> x.tx]
MeanIns(m) ==
  CASE m.k = "FROM" -> [k |-> "FROM", fl |-> MeanPairs(m.fl), im |-> m.im.c, ref |-> m.ref, ix |-> m.ix, al |-> MeanOpt(m.al)]
    [] m.k = "ARG" -> [k |-> "ARG", n |-> m.n.c, v |-> MeanOpt(m.v)]
    [] m.k = "LABEL" -> [k |-> "LABEL", ls |-> MeanPairs(m.ls)]
    [] m.k \in {"RUN", "CMD", "ENTRYPOINT"} ->
         IF m.form = "exec" THEN [k |-> m.k, es |-> Cs(m.x.es)] ELSE [k |-> m.k, x |-> MeanText(m.x)]
    [] m.k = "COPY" -> [k |-> "COPY", fl |-> MeanPairs(m.fl), src |-> Cs(m.src), dst |-> m.dst.c]
    [] m.k = "ENV" -> [k |-> "ENV", vs |-> [i \in 1..Len(m.vs) |-> <<m.vs[i].n.c, MeanText(m.vs[i].v)>>]]
    [] m.k = "MISC" -> [k |-> "MISC", n |-> m.n.c, a |-> MeanText(m.a)]
Mean(ins) == [i \in 1..Len(ins) |-> MeanIns(ins[i])]
KindsOf(ins) == [i \in 1..Len(ins) |-> ins[i].k]
Only(ins, kinds) == SelectSeq(ins, LAMBDA m : m.k \in kinds)

(* ---- spans ---- *)
PosOf(off, b) == IF b + 1 <= Len(off) /\ off[b + 1] = b THEN b + 1
                 ELSE IF \E p \in 1..Len(off) : off[p] = b
                      THEN CHOOSE p \in 1..Len(off) : off[p] = b ELSE 0
\* on character boundaries, inside the text, not inverted
SpanOK(off, sp) == PosOf(off, sp[1]) # 0 /\ PosOf(off, sp[2]) # 0 /\ sp[1] <= sp[2]
SrcOf(s, off, sp) == Slice(s, PosOf(off, sp[1]), PosOf(off, sp[2]))

\* all spans of an instruction as a tree: [sp, kids in source order]
Leaf(x) == [sp |-> x.sp, kids |-> <<>>]
PairTree(x) == [sp |-> x.sp, kids |-> <<Leaf(x.n), Leaf(x.v)>>]
TextTree(x) == [sp |-> x.sp, kids |-> [i \in 1..Len(x.ps) |-> Leaf(x.ps[i])]]
LeafSeq(xs) == [i \in 1..Len(xs) |-> Leaf(xs[i])]
PairSeq(xs) == [i \in 1..Len(xs) |-> PairTree(xs[i])]
SpanTree(m) ==
  [sp |-> m.sp, kids |->
   CASE m.k = "FROM" -> PairSeq(m.fl) \o <<Leaf(m.im)>> \o LeafSeq(m.al)
     [] m.k = "ARG" -> <<Leaf(m.n)>> \o LeafSeq(m.v)
     [] m.k = "LABEL" -> PairSeq(m.ls)
     [] m.k \in {"RUN", "CMD", "ENTRYPOINT"} ->
          IF m.form = "exec" THEN <<[sp |-> m.x.sp, kids |-> LeafSeq(m.x.es)]>> ELSE <<TextTree(m.x)>>
     [] m.k = "COPY" -> PairSeq(m.fl) \o LeafSeq(m.src) \o <<Leaf(m.dst)>>
     [] m.k = "ENV" -> [i \in 1..Len(m.vs) |-> [sp |-> m.vs[i].sp, kids |-> <<Leaf(m.vs[i].n), TextTree(m.vs[i].v)>>]]
     [] m.k = "MISC" -> <<Leaf(m.n), TextTree(m.a)>>]
Ordered(off, ts) == \A i \in 1..(Len(ts) - 1) : ts[i].sp[2] <= ts[i + 1].sp[1]
RECURSIVE TreeOK(_, _)
TreeOK(off, t) == /\ SpanOK(off, t.sp)
                  /\ \A i \in 1..Len(t.kids) : /\ TreeOK(off, t.kids[i])
                                               /\ t.sp[1] <= t.kids[i].sp[1]
                                               /\ t.kids[i].sp[2] <= t.sp[2]
                  /\ Ordered(off, t.kids)

(* ---- contents against the selected source text ---- *)
Quoted(s, a, b) == StringEnd(s, a) = b
Wordlike(t) == \A i \in 1..Len(t) : ~IsBlank(t[i]) /\ ~IsBreak(t[i])
Verbatim(s, a, b, c) == LET t == Slice(s, a, b) IN c = t /\ Wordlike(t)
Decoded(d, c) == d.ok /\ c = d.v
ContentOK(cls, s, a, b, c) ==
  LET t == Slice(s, a, b) IN
  /\ b > a
  /\ CASE cls = "verbatim" -> c = t /\ Wordlike(t)
       [] cls = "piece" -> c = t /\ \A i \in 1..Len(t) : ~IsBreak(t[i])
       [] cls = "maybe" -> Wordlike(t) /\ Decoded(MaybeUnquote(t), c)
       [] cls = "string" -> Quoted(s, a, b) /\ Decoded(Unquote(t), c)
       [] cls = "arg" -> (Quoted(s, a, b) \/ Wordlike(t)) /\ Decoded(MaybeUnquote(t), c)
       [] cls = "env" -> IF Quoted(s, a, b) THEN Decoded(Unquote(t), c) ELSE c = t /\ Wordlike(t)
       [] cls = "label" -> IF Quoted(s, a, b) THEN Decoded(Unquote(DropEscapedBreaks(t)), c)
                           ELSE Wordlike(t) /\ Decoded(MaybeUnquote(t), c)
ItemOK(cls, s, off, x) == SpanOK(off, x.sp) /\ ContentOK(cls, s, PosOf(off, x.sp[1]), PosOf(off, x.sp[2]), x.c)

(* ---- tiling: an instruction's text is exactly its items and what may stand ---- *)
(* between them, so that nothing is lost, added, moved or paired wrongly           *)
Kw(w) == [t |-> "kw", w |-> w, x |-> <<>>]
SepT == [t |-> "sep", w |-> <<>>, x |-> <<>>]
GapT == [t |-> "gap", w |-> <<>>, x |-> <<>>]
Lit(str) == [t |-> "lit", w |-> str, x |-> <<>>]
It(cls, x) == [t |-> "item", w |-> cls, x |-> x]
Span1(x) == [t |-> "span", w |-> <<>>, x |-> x]       \* an item checked elsewhere
FlagTiles(f) == <<SepT, Lit(<<DASH, DASH>>), It("verbatim", f.n), Lit(<<EQ>>), It("maybe", f.v)>>
EqTiles(cls1, cls2, p) == <<SepT, It(cls1, p.n), Lit(<<EQ>>), It(cls2, p.v)>>
MapFlat(f(_), xs) == Flatten([i \in 1..Len(xs) |-> f(xs[i])])
\* a value that is a text: one piece holding the content
AsItem(v) == [sp |-> v.sp, c |-> v.tx]
\* single form: name and value not joined by '='
IsSingle(s, off, ps) ==
  /\ Len(ps) = 1
  /\ SpanOK(off, ps[1].n.sp)
  /\ At(s, PosOf(off, ps[1].n.sp[2])) # EQ
ExecTiles(x) ==
  <<Lit(<<LBR>>)>> \o
  Flatten([i \in 1..Len(x.es) |-> (IF i > 1 THEN <<GapT, Lit(<<COMMA>>)>> ELSE <<>>) \o <<GapT, It("string", x.es[i])>>])
  \o (IF x.es # <<>> THEN <<[t |-> "comma", w |-> <<>>, x |-> <<>>]>> ELSE <<>>)
  \o <<GapT, Lit(<<RBR>>)>>
Tiles(s, off, m) ==
  CASE m.k = "FROM" -> <<Kw(KFrom)>> \o MapFlat(FlagTiles, m.fl) \o <<SepT, It("verbatim", m.im)>>
                       \o (IF m.al = <<>> THEN <<>> ELSE <<SepT, Kw(KAs), SepT, It("verbatim", m.al[1])>>)
    [] m.k = "ARG" -> <<Kw(KArg), SepT, It("verbatim", m.n)>> \o
                      (IF m.v = <<>> THEN <<>> ELSE <<Lit(<<EQ>>), It("arg", m.v[1])>>)
    [] m.k = "LABEL" -> <<Kw(KLabel)>> \o
         IF IsSingle(s, off, m.ls) THEN <<SepT, It("label", m.ls[1].n), SepT, It("label", m.ls[1].v)>>
         ELSE MapFlat(LAMBDA p : EqTiles("label", "label", p), m.ls) \o <<GapT>>
    [] m.k = "ENV" -> <<Kw(KEnv)>> \o
         IF IsSingle(s, off, m.vs) THEN <<SepT, It("verbatim", m.vs[1].n), SepT, Span1(m.vs[1].v)>>
         ELSE MapFlat(LAMBDA p : EqTiles("verbatim", "env", [n |-> p.n, v |-> AsItem(p.v)]), m.vs) \o <<GapT>>
    [] m.k = "COPY" -> <<Kw(KCopy)>> \o MapFlat(FlagTiles, m.fl)
                       \o MapFlat(LAMBDA p : <<SepT, It("maybe", p)>>, m.src) \o <<SepT, It("maybe", m.dst)>>
    [] m.k \in {"RUN", "CMD", "ENTRYPOINT"} ->
         <<Kw(CASE m.k = "RUN" -> KRun [] m.k = "CMD" -> KCmd [] OTHER -> KEntry), SepT>>
         \o (IF m.form = "exec" THEN ExecTiles(m.x) ELSE <<Span1(m.x)>>)
    [] m.k = "MISC" -> <<It("verbatim", m.n), Span1(m.a)>>

RECURSIVE TileRun(_, _, _, _, _)
TileRun(s, off, p, ts, k) ==          \* position after the tiles from k on, or 0
  IF k > Len(ts) \/ p = 0 THEN p
  ELSE LET t == ts[k]
           next == CASE t.t = "kw" -> IF WordAt(s, p, t.w) THEN p + Len(t.w) ELSE 0
                     [] t.t = "lit" -> IF p + Len(t.w) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(t.w) - 1) = t.w
                                       THEN p + Len(t.w) ELSE 0
                     [] t.t = "sep" -> SepEnd(s, p)
                     [] t.t = "gap" -> GapEnd(s, p)
                     [] t.t = "comma" -> IF At(s, p) = COMMA THEN p + 1 ELSE p
                     [] t.t = "item" -> IF /\ ItemOK(t.w, s, off, t.x)
                                           /\ PosOf(off, t.x.sp[1]) = p
                                        THEN PosOf(off, t.x.sp[2]) ELSE 0
                     [] t.t = "span" -> IF SpanOK(off, t.x.sp) /\ PosOf(off, t.x.sp[1]) = p
                                        THEN PosOf(off, t.x.sp[2]) ELSE 0
       IN TileRun(s, off, next, ts, k + 1)
TilesOK(s, off, m) ==
  /\ SpanOK(off, m.sp)
  /\ TileRun(s, off, PosOf(off, m.sp[1]), Tiles(s, off, m), 1) = PosOf(off, m.sp[2])

(* ---- shell-form text (C08), by lines ---- *)
RECURSIVE LinesRec(_, _, _)
LinesRec(t, i, acc) ==
  LET e == LineEnd(t, i) IN
  IF e > Len(t) THEN Append(acc, Slice(t, i, e))
  ELSE LinesRec(t, BreakEnd(t, e), Append(acc, Slice(t, i, e)))
LinesOf(t) == LinesRec(t, 1, <<>>)
RECURSIVE TrimEnd(_, _)
TrimEnd(l, n) == IF n > 0 /\ IsBlank(l[n]) THEN TrimEnd(l, n - 1) ELSE n
\* a line without the continuation at its end
DropCont(l) == LET n == TrimEnd(l, Len(l)) IN IF n > 0 /\ l[n] = BS THEN SubSeq(l, 1, n - 1) ELSE l
ShellDecl(t) ==               \* the shown text of the source text t
  LET ls == LinesOf(t)
      isC(i) == i > 1 /\ CommentAt(ls[i], 1) # 0
  IN Flatten([i \in 1..Len(ls) |-> IF isC(i) THEN <<>> ELSE IF i < Len(ls) THEN DropCont(ls[i]) ELSE ls[i]])
CommentsDecl(t) ==
  LET ls == LinesOf(t)
      idx == SelectSeq([i \in 1..Len(ls) |-> i], LAMBDA i : i > 1 /\ CommentAt(ls[i], 1) # 0)
  IN [k \in 1..Len(idx) |-> Slice(ls[idx[k]], CommentAt(ls[idx[k]], 1), Len(ls[idx[k]]) + 1)]
PiecesOf(ps, t) == SelectSeq(ps, LAMBDA p : p.t = t)
TextOK(s, off, x) ==
  /\ SpanOK(off, x.sp)
  /\ x.tx = ShellDecl(SrcOf(s, off, x.sp))
  /\ x.tx = Flatten(Cs(PiecesOf(x.ps, "s")))
  /\ Cs(PiecesOf(x.ps, "c")) = CommentsDecl(SrcOf(s, off, x.sp))
  /\ \A i \in 1..Len(x.ps) : /\ SpanOK(off, x.ps[i].sp)
                             /\ x.ps[i].c = SrcOf(s, off, x.ps[i].sp)
                             /\ (x.ps[i].t = "c" => x.ps[i].c[1] = HASH)
  /\ Ordered(off, x.ps)
  /\ LET e == PosOf(off, x.sp[2]) IN          \* ends at its first unescaped line break
     At(s, e) = EOI \/ IsBreak(At(s, e))
\* the shell texts of an instruction; a quoted single ENV value is not one
ShellTexts(s, off, m) ==
  CASE m.k \in {"RUN", "CMD", "ENTRYPOINT"} -> IF m.form = "shell" THEN <<m.x>> ELSE <<>>
    [] m.k = "MISC" -> <<m.a>>
    [] m.k = "ENV" -> IF IsSingle(s, off, m.vs) /\ SpanOK(off, m.vs[1].v.sp)
                         /\ ~Quoted(s, PosOf(off, m.vs[1].v.sp[1]), PosOf(off, m.vs[1].v.sp[2]))
                      THEN <<m.vs[1].v>> ELSE <<>>
    [] OTHER -> <<>>

(* ---- what lies between the instructions (C04) ---- *)
RECURSIVE BlankLines(_, _, _)
\* may [i, e) be skipped, starting at the beginning of a line?
BlankLines(s, i, e) ==
  LET j == SkipBlanks(s, i)
      l == IF At(s, j) = HASH THEN LineEnd(s, j) ELSE j
      b == BreakEnd(s, l)
  IN IF j = e \/ l = e THEN TRUE
     ELSE IF l > e \/ b = 0 \/ b > e THEN FALSE
     ELSE BlankLines(s, b, e)
\* ... starting right after an instruction, and reaching the start of the next one
Between(s, i, e, last) ==
  LET b == BreakEnd(s, SkipBlanks(s, i)) IN
  IF b = 0 THEN last /\ SkipBlanks(s, i) = e ELSE b <= e /\ BlankLines(s, b, e)
Spans(ins) == [i \in 1..Len(ins) |-> ins[i].sp]
ResidueOK(s, off, ins) ==
  LET n == Len(ins)
      a(i) == PosOf(off, ins[i].sp[1])
      z(i) == PosOf(off, ins[i].sp[2])
      noHash(i) == At(s, a(i)) # HASH
  IN /\ \A i \in 1..n : SpanOK(off, ins[i].sp)
     /\ IF n = 0 THEN BlankLines(s, 1, Len(s) + 1)
        ELSE /\ BlankLines(s, 1, a(1))
             /\ \A i \in 1..(n - 1) : Between(s, z(i), a(i + 1), FALSE)
             /\ Between(s, z(n), Len(s) + 1, TRUE)

(* ---- the properties, for an accepted document ---- *)
KindKw(k) == IF k = "MISC" THEN <<>> ELSE KeywordOf(k)
KeywordsOK(s, off, ins) ==
  \A i \in 1..Len(ins) : /\ SpanOK(off, ins[i].sp)
                         /\ IsAlpha(At(s, PosOf(off, ins[i].sp[1])))
                         /\ (ins[i].k # "MISC" => WordAt(s, PosOf(off, ins[i].sp[1]), KeywordOf(ins[i].k)))
TreesOK(s, off, ins) ==
  /\ \A i \in 1..Len(ins) : TreeOK(off, SpanTree(ins[i]))
  /\ \A i \in 1..(Len(ins) - 1) : ins[i].sp[2] <= ins[i + 1].sp[1]
AllTiles(s, off, ins, kinds) == \A i \in 1..Len(ins) : ins[i].k \in kinds => TilesOK(s, off, ins[i])
AllTexts(s, off, ins) ==
  \A i \in 1..Len(ins) : LET ts == ShellTexts(s, off, ins[i]) IN
                         \A j \in 1..Len(ts) : TextOK(s, off, ts[j])
\* FROM: reference, ordinal, digest
FromsOK(ins) ==
  LET fs == Only(ins, {"FROM"}) IN
  \A i \in 1..Len(fs) : /\ fs[i].ix = i - 1
                        /\ fs[i].ref = ParseRef(fs[i].im.c)
                        /\ (fs[i].ref.hash # <<>> => ValidDigest(fs[i].ref.hash[1]))
\* the global arguments are the ARGs before the first FROM
RECURSIVE ArgsBefore(_, _)
ArgsBefore(ins, i) == IF i > Len(ins) THEN <<>>
                      ELSE IF ins[i].k = "FROM" THEN <<>>
                      ELSE IF ins[i].k = "ARG" THEN <<ins[i]>> \o ArgsBefore(ins, i + 1)
                      ELSE ArgsBefore(ins, i + 1)
GlobalsOK(ins, ga) == ga = ArgsBefore(ins, 1)
\* a misc instruction's text is its name followed by its arguments
MiscSplitOK(s, off, ins) ==
  \A i \in 1..Len(ins) : ins[i].k = "MISC" =>
    LET m == ins[i] IN /\ m.sp[1] = m.n.sp[1] /\ m.n.sp[2] = m.a.sp[1] /\ m.a.sp[2] = m.sp[2]
                       /\ SrcOf(s, off, m.sp) = m.n.c \o SrcOf(s, off, m.a.sp)
                       /\ \A j \in 1..Len(m.n.c) : IsAlpha(m.n.c[j])
                       /\ ~IsAlpha(At(s, PosOf(off, m.n.sp[2])))
===========================================================================
