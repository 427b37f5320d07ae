-------------------------------- MODULE Edit ------------------------------
(* Items of a document that can be replaced, what may replace them, and what   *)
(* the document means afterwards (C22).  An item is [i, f, j]: the j-th item of *)
(* kind f of the i-th instruction.                                              *)
EXTENDS Props

Item(n, f, j, x) == [i |-> n, f |-> f, j |-> j, sp |-> x.sp]
TextItems(n, x) == Flatten([j \in 1..Len(x.ps) |-> IF x.ps[j].t = "s" THEN <<Item(n, "piece", j, x.ps[j])>> ELSE <<>>])
FlagItems(n, fl) == [j \in 1..Len(fl) |-> Item(n, "flag", j, fl[j].v)]
ItemsOfIns(n, m) ==
  CASE m.k = "FROM" -> FlagItems(n, m.fl) \o <<Item(n, "image", 1, m.im)>> \o [j \in 1..Len(m.al) |-> Item(n, "alias", 1, m.al[j])]
    [] m.k = "ARG" -> <<Item(n, "name", 1, m.n)>> \o [j \in 1..Len(m.v) |-> Item(n, "value", 1, m.v[j])]
    [] m.k = "LABEL" -> Flatten([j \in 1..Len(m.ls) |-> <<Item(n, "name", j, m.ls[j].n), Item(n, "value", j, m.ls[j].v)>>])
    [] m.k = "ENV" -> Flatten([j \in 1..Len(m.vs) |-> <<Item(n, "name", j, m.vs[j].n)>> \o
                         (IF Len(m.vs[j].v.ps) = 1 THEN <<Item(n, "value", j, m.vs[j].v)>> ELSE TextItems(n, m.vs[j].v))])
    [] m.k = "COPY" -> FlagItems(n, m.fl) \o [j \in 1..Len(m.src) |-> Item(n, "path", j, m.src[j])] \o <<Item(n, "path", Len(m.src) + 1, m.dst)>>
    [] m.k \in {"RUN", "CMD", "ENTRYPOINT"} ->
         IF m.form = "exec" THEN [j \in 1..Len(m.x.es) |-> Item(n, "elem", j, m.x.es[j])] ELSE TextItems(n, m.x)
    [] m.k = "MISC" -> <<Item(n, "misc", 1, m.n)>> \o TextItems(n, m.a)
ItemsOf(ins) == Flatten([n \in 1..Len(ins) |-> ItemsOfIns(n, ins[n])])

(* ---- classes of items, and what is a suitable replacement of each ---- *)
ClassOf(s, off, ins, it) ==
  LET m == ins[it.i] IN
  CASE it.f = "name" -> (CASE m.k = "ARG" -> "argname" [] m.k = "LABEL" -> "labelname" [] OTHER -> "envname")
    [] it.f = "value" -> (CASE m.k = "ARG" -> "argvalue" [] m.k = "LABEL" -> "labelvalue"
                            [] OTHER -> IF IsSingle(s, off, m.vs) THEN "envsingle" ELSE "envvalue")
    [] it.f = "piece" -> IF m.k = "MISC" /\ it.j = 1 THEN "miscpiece" ELSE "piece"
    [] OTHER -> it.f
Whole1(r, e) == r # <<>> /\ e = Len(r) + 1
QuotedAll(r) == Whole1(r, StringEnd(r, 1)) /\ Unquote(r).ok
PlainWord(r) == Whole1(r, WordEnd(r, 1)) /\ r[1] \notin {DQ, SQ, BT, EQ, HASH, LBR} /\ r[Len(r)] # BS
                  /\ ~(Len(r) > 1 /\ r[1] = DASH /\ r[2] = DASH)
Plain(r) == /\ r # <<>> /\ r[1] \notin {DQ, SQ, BT, EQ, HASH, LBR, SP, TAB, BS} /\ r[Len(r)] \notin {BS, SP, TAB}
            /\ \A j \in 1..Len(r) : ~IsBreak(r[j])
Suits(cls, r) ==
  CASE cls = "image" -> Whole1(r, ImageEnd(r, 1)) /\ LET h == ParseRef(r).hash IN (h # <<>> => ValidDigest(h[1]))
    [] cls = "alias" -> Whole1(r, IdentEnd(r, 1))
    [] cls \in {"flag", "path"} -> PlainWord(r) \/ (QuotedAll(r) /\ Whole1(r, WordEnd(r, 1)))
    [] cls = "argname" -> Whole1(r, ArgNameEnd(r, 1))
    [] cls = "argvalue" -> PlainWord(r) \/ QuotedAll(r)
    [] cls = "labelname" -> QuotedAll(DropEscapedBreaks(r)) \/ (PlainWord(r) /\ ~HasChar(r, EQ))
    [] cls = "labelvalue" -> PlainWord(r) \/ QuotedAll(DropEscapedBreaks(r))
    [] cls = "envname" -> Whole1(r, NameEnd(r, 1))
    [] cls = "envvalue" -> PlainWord(r) \/ QuotedAll(r)
    [] cls = "envsingle" -> Plain(r) \/ QuotedAll(r)
    [] cls = "piece" -> Plain(r)
    [] cls = "miscpiece" -> r # <<>> /\ IsBlank(r[1]) /\ Plain(Tail(r))
    [] cls = "elem" -> QuotedAll(r)
    [] cls = "misc" -> Whole1(r, AlphaEnd(r, 1)) /\ KindAt(r, 1) = "MISC"
    [] OTHER -> FALSE
Denotes(cls, r) ==           \* the value that a suitable replacement stands for
  CASE cls \in {"flag", "path", "argvalue"} -> MaybeUnquote(r).v
    [] cls \in {"labelname", "labelvalue"} -> MaybeUnquote(DropEscapedBreaks(r)).v
    [] cls \in {"envvalue", "envsingle"} -> IF QuotedAll(r) THEN Unquote(r).v ELSE r
    [] cls = "elem" -> Unquote(r).v
    [] OTHER -> r

(* ---- the meaning of the document with one item changed ---- *)
PieceSet(x, j, v) ==
  LET ps == [x.ps EXCEPT ![j][2] = v] IN
  [ps |-> ps, tx |-> Flatten([q \in 1..Len(ps) |-> IF ps[q][1] = "s" THEN ps[q][2] ELSE <<>>])]
SetIn(m, f, j, v) ==
  CASE f = "flag" -> [m EXCEPT !.fl[j][2] = v]
    [] f = "image" -> [m EXCEPT !.im = v, !.ref = ParseRef(v)]
    [] f = "alias" -> [m EXCEPT !.al = <<v>>]
    [] f = "name" -> IF m.k = "ARG" THEN [m EXCEPT !.n = v] ELSE IF m.k = "LABEL" THEN [m EXCEPT !.ls[j][1] = v] ELSE [m EXCEPT !.vs[j][1] = v]
    [] f = "value" -> IF m.k = "ARG" THEN [m EXCEPT !.v = <<v>>] ELSE IF m.k = "LABEL" THEN [m EXCEPT !.ls[j][2] = v]
                      ELSE [m EXCEPT !.vs[j][2] = PieceSet(m.vs[j][2], 1, v)]
    [] f = "path" -> IF j <= Len(m.src) THEN [m EXCEPT !.src[j] = v] ELSE [m EXCEPT !.dst = v]
    [] f = "elem" -> [m EXCEPT !.es[j] = v]
    [] f = "misc" -> [m EXCEPT !.n = v]
    [] f = "piece" -> IF m.k = "MISC" THEN [m EXCEPT !.a = PieceSet(m.a, j, v)]
                      ELSE IF m.k = "ENV" THEN [m EXCEPT !.vs[1][2] = PieceSet(m.vs[1][2], j, v)]
                      ELSE [m EXCEPT !.x = PieceSet(m.x, j, v)]
\* ops: [i, f, j, v]
RECURSIVE Modify(_, _, _)
Modify(mean, ops, k) == IF k > Len(ops) THEN mean
                        ELSE Modify([mean EXCEPT ![ops[k].i] = SetIn(@, ops[k].f, ops[k].j, ops[k].v)], ops, k + 1)
Has(ins, it) == LET q == ItemsOf(ins) IN \E j \in 1..Len(q) : q[j].i = it.i /\ q[j].f = it.f /\ q[j].j = it.j
Find3(ins, it) == LET q == ItemsOf(ins) IN q[CHOOSE j \in 1..Len(q) : q[j].i = it.i /\ q[j].f = it.f /\ q[j].j = it.j]
===========================================================================
