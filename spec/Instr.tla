------------------------------ MODULE Instr -------------------------------
(* One operator per instruction kind: recognise the instruction at position  *)
(* i of the text s and build what the library reports for it.                *)
(*   m.e    position after the instruction, 0 if this is not that kind       *)
(*   m.bad  the rules broken when the recognised text is converted:          *)
(*          a subset of {"escape", "digest"}                                 *)
(*   m.ins  the instruction record                                           *)
(* off maps positions to byte offsets.                                       *)
EXTENDS Lex, Image, TLC

NoMatch == [e |-> 0, bad |-> {}, ins |-> [k |-> "NONE"]]
Match(e, bad, ins) == [e |-> e, bad |-> bad, ins |-> ins]

Sp(off, i, j) == <<off[i], off[j]>>
Raw(s, off, i, j) == [sp |-> Sp(off, i, j), c |-> Slice(s, i, j)]
Dec(off, i, j, d) == [sp |-> Sp(off, i, j), c |-> d.v]
Err(d) == IF d.ok THEN {} ELSE {"escape"}

\* position after the keyword w, 0 if it is not there
KwEnd(s, i, w) == IF WordAt(s, i, w) THEN i + Len(w) ELSE 0

KFrom == T("from")  KArg == T("arg")  KLabel == T("label")  KRun == T("run")
KEntry == T("entrypoint")  KCmd == T("cmd")  KCopy == T("copy")  KEnv == T("env")  KAs == T("as")

(* ---- flags: --name=value, each preceded by a separator ---- *)
FlagAt(s, off, i) ==          \* flag itself, without separator
  LET n == IF At(s, i) = DASH /\ At(s, i + 1) = DASH THEN AlphaEnd(s, i + 2) ELSE 0
      v == IF n # 0 /\ At(s, n) = EQ THEN WordEnd(s, n + 1) ELSE 0
      dec == MaybeUnquote(Slice(s, n + 1, v))
  IN IF v = 0 THEN [e |-> 0, bad |-> {}, f |-> <<>>]
     ELSE [e |-> v, bad |-> Err(dec),
           f |-> [sp |-> Sp(off, i, v), n |-> Raw(s, off, i + 2, n), v |-> Dec(off, n + 1, v, dec)]]
RECURSIVE Flags(_, _, _, _, _)
Flags(s, off, i, bad, acc) ==
  LET sep == SepEnd(s, i)
      f == IF sep = 0 THEN [e |-> 0] ELSE FlagAt(s, off, sep)
  IN IF f.e = 0 THEN [e |-> i, bad |-> bad, fl |-> acc]
     ELSE Flags(s, off, f.e, bad \cup f.bad, Append(acc, f.f))

(* ---- FROM ---- *)
AliasEnd(s, i) ==             \* [a |-> start, e |-> end] of the alias in " as name" at i
  LET s1 == SepEnd(s, i)
      k == IF s1 = 0 THEN 0 ELSE KwEnd(s, s1, KAs)
      s2 == IF k = 0 THEN 0 ELSE SepEnd(s, k)
      e == IF s2 = 0 THEN 0 ELSE IdentEnd(s, s2)
  IN [a |-> s2, e |-> e]
FromIns(s, off, i, ix) ==
  LET k == KwEnd(s, i, KFrom)
      f == Flags(s, off, k, {}, <<>>)
      s1 == SepEnd(s, f.e)
      e == IF s1 = 0 THEN 0 ELSE ImageEnd(s, s1)
      al == AliasEnd(s, e)
      end == IF al.e = 0 THEN e ELSE al.e
      ref == ParseRef(Slice(s, s1, e))
      digest == IF ref.hash # <<>> /\ ~ValidDigest(ref.hash[1]) THEN {"digest"} ELSE {}
  IN IF k = 0 THEN NoMatch
     ELSE IF e = 0 THEN NoMatch
     ELSE Match(end, f.bad \cup digest,
            [k |-> "FROM", sp |-> Sp(off, i, end), fl |-> f.fl, im |-> Raw(s, off, s1, e),
             ref |-> ref, ix |-> ix,
             al |-> IF al.e = 0 THEN <<>> ELSE <<Raw(s, off, al.a, al.e)>>])

(* ---- ARG ---- *)
ArgIns(s, off, i) ==
  LET k == KwEnd(s, i, KArg)
      s1 == IF k = 0 THEN 0 ELSE SepEnd(s, k)
      n == IF s1 = 0 THEN 0 ELSE ArgNameEnd(s, s1)
      v0 == IF n # 0 /\ At(s, n) = EQ THEN n + 1 ELSE 0
      v == IF v0 = 0 THEN 0
           ELSE IF StringEnd(s, v0) # 0 THEN StringEnd(s, v0) ELSE WordEnd(s, v0)
      dec == MaybeUnquote(Slice(s, v0, v))
      end == IF v = 0 THEN n ELSE v
  IN IF n = 0 THEN NoMatch
     ELSE Match(end, IF v = 0 THEN {} ELSE Err(dec),
            [k |-> "ARG", sp |-> Sp(off, i, end), n |-> Raw(s, off, s1, n),
             v |-> IF v = 0 THEN <<>> ELSE <<Dec(off, v0, v, dec)>>])

(* ---- LABEL ---- *)
\* a name or value: quoted if possible, otherwise the plain run ending at plain
LabelPart(s, off, i, plain) ==
  LET q == StringEnd(s, i)
      e == IF q # 0 THEN q ELSE plain
      dec == IF q # 0 THEN Unquote(DropEscapedBreaks(Slice(s, i, q))) ELSE MaybeUnquote(Slice(s, i, e))
  IN IF e = 0 THEN [e |-> 0, bad |-> {}, p |-> <<>>]
     ELSE [e |-> e, bad |-> Err(dec), p |-> Dec(off, i, e, dec)]
LabelOf(off, i, nm, vl) == [sp |-> Sp(off, i, vl.e), n |-> nm.p, v |-> vl.p]
LabelPair(s, off, i) ==
  LET nm == LabelPart(s, off, i, KeyEnd(s, i))
      eq == nm.e # 0 /\ At(s, nm.e) = EQ
      vl == LabelPart(s, off, nm.e + 1, WordEnd(s, nm.e + 1))
  IN IF ~eq THEN [e |-> 0]
     ELSE IF vl.e = 0 THEN [e |-> 0]
     ELSE [e |-> vl.e, bad |-> nm.bad \cup vl.bad, l |-> LabelOf(off, i, nm, vl)]
RECURSIVE LabelPairs(_, _, _, _, _, _)
LabelPairs(s, off, i, first, bad, acc) ==
  LET sep == SepEnd(s, i)
      p == IF sep = 0 THEN [e |-> 0] ELSE LabelPair(s, off, sep)
  IN IF sep = 0 THEN [e |-> IF first THEN 0 ELSE i, bad |-> bad, ls |-> acc]
     ELSE IF p.e = 0 THEN LabelPairs(s, off, sep, FALSE, bad, acc)
     ELSE LabelPairs(s, off, p.e, FALSE, bad \cup p.bad, Append(acc, p.l))
LabelSingle(s, off, i) ==     \* the span of the one label starts at the separator
  LET s1 == SepEnd(s, i)
      nm == IF s1 = 0 THEN [e |-> 0] ELSE LabelPart(s, off, s1, KeyEnd(s, s1))
      s2 == IF nm.e = 0 THEN 0 ELSE SepEnd(s, nm.e)
      vl == IF s2 = 0 THEN [e |-> 0] ELSE LabelPart(s, off, s2, WordEnd(s, s2))
  IN IF vl.e = 0 THEN [e |-> 0]
     ELSE [e |-> vl.e, bad |-> nm.bad \cup vl.bad, ls |-> <<LabelOf(off, i, nm, vl)>>]
LabelIns(s, off, i) ==
  LET k == KwEnd(s, i, KLabel)
      one == LabelSingle(s, off, k)
      many == LabelPairs(s, off, k, TRUE, {}, <<>>)
      r == IF one.e # 0 THEN one ELSE many
  IN IF k = 0 THEN NoMatch
     ELSE IF r.e = 0 THEN NoMatch
     ELSE Match(r.e, r.bad, [k |-> "LABEL", sp |-> Sp(off, i, r.e), ls |-> r.ls])

(* ---- shell-form text ---- *)
\* one piece of text: up to a line break or continuation
RECURSIVE PieceRun(_, _)
PieceRun(s, i) ==
  LET c == At(s, i) IN
  IF c = EOI \/ IsBreak(c) \/ (c = BS /\ ContEnd(s, i) # 0) THEN i ELSE PieceRun(s, i + 1)
PieceEnd(s, i) == NonEmpty(i, PieceRun(s, i))

RECURSIVE ShellText(_, _, _, _), ShellMore(_, _, _, _)
ShellText(s, off, i, acc) ==  \* [e, ps]: at a piece of text
  LET e == PieceEnd(s, i)
      ps == Append(acc, [t |-> "s"] @@ Raw(s, off, i, e))
      c == ContEnd(s, e)
      more == ShellMore(s, off, c, ps)
  IN IF e = 0 THEN [e |-> 0, ps |-> acc]
     ELSE IF c = 0 THEN [e |-> e, ps |-> ps]
     ELSE IF more.e = 0 THEN [e |-> e, ps |-> ps]
     ELSE more
ShellMore(s, off, i, acc) ==  \* on a continued line: comment lines, then text
  LET c == CommentAt(s, i)
      ps == Append(acc, [t |-> "c"] @@ Raw(s, off, c, LineEnd(s, c)))
      e == CommentLineEnd(s, i)
      more == ShellMore(s, off, e, ps)
  IN IF c = 0 THEN ShellText(s, off, i, acc)
     ELSE IF more.e = 0 THEN [e |-> e, ps |-> ps]
     ELSE more

RECURSIVE ShownRec(_, _, _)
ShownRec(ps, i, acc) == IF i > Len(ps) THEN acc
                        ELSE ShownRec(ps, i + 1, IF ps[i].t = "s" THEN acc \o ps[i].c ELSE acc)
Shown(ps) == ShownRec(ps, 1, <<>>)
ShellAt(s, off, i) ==
  LET r == ShellText(s, off, i, <<>>) IN
  IF r.e = 0 THEN [e |-> 0, x |-> <<>>]
  ELSE [e |-> r.e, x |-> [sp |-> Sp(off, i, r.e), ps |-> r.ps, tx |-> Shown(r.ps)]]

(* ---- exec form ---- *)
Elem(s, off, i, e) ==
  LET dec == Unquote(Slice(s, i, e)) IN [bad |-> Err(dec), el |-> Dec(off, i, e, dec)]
\* after an element: more elements, an optional trailing comma, the bracket
RECURSIVE ExecRest(_, _, _, _, _)
ExecRest(s, off, i, bad, acc) ==
  LET c == GapEnd(s, i)
      n == IF At(s, c) = COMMA THEN GapEnd(s, c + 1) ELSE 0
      e == IF n = 0 THEN 0 ELSE StringEnd(s, n)
      el == Elem(s, off, n, e)
      z == GapEnd(s, IF At(s, i) = COMMA THEN i + 1 ELSE i)
  IN IF e # 0 THEN ExecRest(s, off, e, bad \cup el.bad, Append(acc, el.el))
     ELSE IF At(s, z) = RBR THEN [e |-> z + 1, bad |-> bad, es |-> acc]
     ELSE [e |-> 0, bad |-> {}, es |-> <<>>]
ExecAt(s, off, i) ==
  LET a == GapEnd(s, i + 1)
      e == StringEnd(s, a)
      el == Elem(s, off, a, e)
      r == IF e # 0 THEN ExecRest(s, off, e, el.bad, <<el.el>>) ELSE [e |-> 0, bad |-> {}, es |-> <<>>]
      fin == IF r.e # 0 THEN r
             ELSE IF At(s, a) = RBR THEN [e |-> a + 1, bad |-> {}, es |-> <<>>] ELSE r
  IN IF At(s, i) # LBR THEN [e |-> 0, bad |-> {}, x |-> <<>>]
     ELSE IF fin.e = 0 THEN [e |-> 0, bad |-> {}, x |-> <<>>]
     ELSE [e |-> fin.e, bad |-> fin.bad, x |-> [sp |-> Sp(off, i, fin.e), es |-> fin.es]]

(* ---- RUN, CMD, ENTRYPOINT ---- *)
CommandIns(s, off, i, kw, kind) ==
  LET k == KwEnd(s, i, kw)
      s1 == IF k = 0 THEN 0 ELSE SepEnd(s, k)
      ex == ExecAt(s, off, s1)
      sh == ShellAt(s, off, s1)
  IN IF s1 = 0 THEN NoMatch
     ELSE IF ex.e # 0 THEN Match(ex.e, ex.bad, [k |-> kind, sp |-> Sp(off, i, ex.e), form |-> "exec", x |-> ex.x])
     ELSE IF sh.e # 0 THEN Match(sh.e, {}, [k |-> kind, sp |-> Sp(off, i, sh.e), form |-> "shell", x |-> sh.x])
     ELSE NoMatch

(* ---- COPY ---- *)
RECURSIVE Paths(_, _, _, _, _)
Paths(s, off, i, bad, acc) ==
  LET sep == SepEnd(s, i)
      e == IF sep = 0 THEN 0 ELSE WordEnd(s, sep)
      dec == MaybeUnquote(Slice(s, sep, e))
  IN IF e = 0 THEN [e |-> i, bad |-> bad, ps |-> acc]
     ELSE Paths(s, off, e, bad \cup Err(dec), Append(acc, Dec(off, sep, e, dec)))
CopyIns(s, off, i) ==
  LET k == KwEnd(s, i, KCopy)
      f == Flags(s, off, k, {}, <<>>)
      p == Paths(s, off, f.e, f.bad, <<>>)
  IN IF k = 0 THEN NoMatch
     ELSE IF Len(p.ps) < 2 THEN NoMatch
     ELSE Match(p.e, p.bad, [k |-> "COPY", sp |-> Sp(off, i, p.e), fl |-> f.fl,
                             src |-> SubSeq(p.ps, 1, Len(p.ps) - 1), dst |-> p.ps[Len(p.ps)]])

(* ---- ENV ---- *)
Whole(p) == [sp |-> p.sp, ps |-> <<[t |-> "s"] @@ p>>, tx |-> p.c]      \* a one-piece text
EnvPair(s, off, i) ==
  LET n == NameEnd(s, i)
      v0 == IF n # 0 /\ At(s, n) = EQ THEN n + 1 ELSE 0
      q == IF v0 = 0 THEN 0 ELSE StringEnd(s, v0)
      w == IF v0 = 0 THEN 0 ELSE WordEnd(s, v0)
      e == IF q # 0 THEN q ELSE w
      dec == IF q # 0 THEN Unquote(Slice(s, v0, q)) ELSE Good(Slice(s, v0, w))
  IN IF e = 0 THEN [e |-> 0]
     ELSE [e |-> e, bad |-> Err(dec),
           v |-> [sp |-> Sp(off, i, e), n |-> Raw(s, off, i, n), v |-> Whole(Dec(off, v0, e, dec))]]
RECURSIVE EnvPairs(_, _, _, _, _, _)
EnvPairs(s, off, i, first, bad, acc) ==
  LET sep == SepEnd(s, i)
      p == IF sep = 0 THEN [e |-> 0] ELSE EnvPair(s, off, sep)
  IN IF sep = 0 THEN [e |-> IF first THEN 0 ELSE i, bad |-> bad, vs |-> acc]
     ELSE IF p.e = 0 THEN EnvPairs(s, off, sep, FALSE, bad, acc)
     ELSE EnvPairs(s, off, p.e, FALSE, bad \cup p.bad, Append(acc, p.v))
EnvSingle(s, off, i) ==
  LET s1 == SepEnd(s, i)
      n == IF s1 = 0 THEN 0 ELSE NameEnd(s, s1)
      s2 == IF n = 0 THEN 0 ELSE SepEnd(s, n)
      q == IF s2 = 0 THEN 0 ELSE StringEnd(s, s2)
      dec == Unquote(Slice(s, s2, q))
      sh == IF s2 = 0 THEN [e |-> 0] ELSE ShellAt(s, off, s2)
      var(e, x) == <<[sp |-> Sp(off, s1, e), n |-> Raw(s, off, s1, n), v |-> x]>>
  IN IF q # 0 THEN [e |-> q, bad |-> Err(dec), vs |-> var(q, Whole(Dec(off, s2, q, dec)))]
     ELSE IF sh.e # 0 THEN [e |-> sh.e, bad |-> {}, vs |-> var(sh.e, sh.x)]
     ELSE [e |-> 0]
EnvIns(s, off, i) ==
  LET k == KwEnd(s, i, KEnv)
      one == EnvSingle(s, off, k)
      many == EnvPairs(s, off, k, TRUE, {}, <<>>)
      r == IF one.e # 0 THEN one ELSE many
  IN IF k = 0 THEN NoMatch
     ELSE IF r.e = 0 THEN NoMatch
     ELSE Match(r.e, r.bad, [k |-> "ENV", sp |-> Sp(off, i, r.e), vs |-> r.vs])

(* ---- anything else ---- *)
MiscIns(s, off, i) ==
  LET n == AlphaEnd(s, i)
      a == IF n = 0 THEN [e |-> 0] ELSE ShellAt(s, off, n)
  IN IF a.e = 0 THEN NoMatch
     ELSE Match(a.e, {}, [k |-> "MISC", sp |-> Sp(off, i, a.e), n |-> Raw(s, off, i, n), a |-> a.x])

Kinds == {"FROM", "RUN", "ARG", "LABEL", "COPY", "ENTRYPOINT", "CMD", "ENV"}
Known(s, off, i, ix, kind) ==
  CASE kind = "FROM" -> FromIns(s, off, i, ix)
    [] kind = "ARG" -> ArgIns(s, off, i)
    [] kind = "LABEL" -> LabelIns(s, off, i)
    [] kind = "RUN" -> CommandIns(s, off, i, KRun, "RUN")
    [] kind = "CMD" -> CommandIns(s, off, i, KCmd, "CMD")
    [] kind = "ENTRYPOINT" -> CommandIns(s, off, i, KEntry, "ENTRYPOINT")
    [] kind = "COPY" -> CopyIns(s, off, i)
    [] kind = "ENV" -> EnvIns(s, off, i)
KeywordOf(kind) ==
  CASE kind = "FROM" -> KFrom [] kind = "ARG" -> KArg [] kind = "LABEL" -> KLabel
    [] kind = "RUN" -> KRun [] kind = "CMD" -> KCmd [] kind = "ENTRYPOINT" -> KEntry
    [] kind = "COPY" -> KCopy [] kind = "ENV" -> KEnv
\* the kind named by the word at i, or MISC (no keyword is a prefix of another)
KindAt(s, i) ==
  LET c == Lower(At(s, i))
      is(k) == WordAt(s, i, KeywordOf(k)) IN
  IF c = 102 /\ is("FROM") THEN "FROM" ELSE IF c = 97 /\ is("ARG") THEN "ARG"
  ELSE IF c = 108 /\ is("LABEL") THEN "LABEL" ELSE IF c = 114 /\ is("RUN") THEN "RUN"
  ELSE IF c = 99 /\ is("CMD") THEN "CMD" ELSE IF c = 99 /\ is("COPY") THEN "COPY"
  ELSE IF c = 101 /\ is("ENTRYPOINT") THEN "ENTRYPOINT" ELSE IF c = 101 /\ is("ENV") THEN "ENV"
  ELSE "MISC"
\* the instruction at i: its own kind if the operands fit, otherwise MISC
InsAt(s, off, i, ix) ==
  LET kind == KindAt(s, i)
      m == IF kind = "MISC" THEN NoMatch ELSE Known(s, off, i, ix, kind)
  IN IF m.e # 0 THEN m ELSE MiscIns(s, off, i)
===========================================================================
