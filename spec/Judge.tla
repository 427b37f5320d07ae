------------------------------- MODULE Judge ------------------------------
(* When does an observation o of the text s conform to property P?  spec is   *)
(* what the specification says about s: [res, ins, ga, bad, left].  The       *)
(* answer is the list of clauses that fail, so <<>> means that P holds.       *)
EXTENDS Props

Shells == {"RUN", "CMD", "ENTRYPOINT"}
Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Names(cs) == [i \in 1..Len(cs) |-> cs[i][1]]
Verdict(cs) == Names(Failing(cs))

ItemTiles(s, off, m) == SelectSeq(Tiles(s, off, m), LAMBDA t : t.t = "item")
ItemsOK(s, off, ins) ==
  \A i \in 1..Len(ins) : LET ts == ItemTiles(s, off, ins[i]) IN
  \A j \in 1..Len(ts) : ItemOK(ts[j].w, s, off, ts[j].x)
\* items whose source text begins with a quote, as <<span, content>>
QuotedItems(s, off, ins) ==
  UNION {LET ts == ItemTiles(s, off, ins[i]) IN
         {<<ts[j].x.sp, ts[j].x.c>> : j \in {j \in 1..Len(ts) :
             SpanOK(off, ts[j].x.sp) /\ At(s, PosOf(off, ts[j].x.sp[1])) \in {DQ, SQ}}}
         : i \in 1..Len(ins)}
SingleQuotedEnv(s, off, ins) ==
  UNION {IF ins[i].k = "ENV" /\ IsSingle(s, off, ins[i].vs) /\ ShellTexts(s, off, ins[i]) = <<>>
         THEN {<<ins[i].vs[1].v.sp, ins[i].vs[1].v.tx>>} ELSE {} : i \in 1..Len(ins)}
DecodedItems(s, off, ins) == QuotedItems(s, off, ins) \cup SingleQuotedEnv(s, off, ins)
Agree(a, b) == \A x \in a : \A y \in b : x[1] = y[1] => x[2] = y[2]

ShellMean(s, off, ins) ==
  Flatten([i \in 1..Len(ins) |-> LET ts == ShellTexts(s, off, ins[i]) IN
           [j \in 1..Len(ts) |-> <<ins[i].k, MeanText(ts[j])>>]])
ExecMean(ins) ==
  LET rs == Only(ins, Shells) IN
  [i \in 1..Len(rs) |-> <<rs[i].k, rs[i].form, IF rs[i].form = "exec" THEN Cs(rs[i].x.es) ELSE <<>>>>]
Execs(ins) == SelectSeq(ins, LAMBDA m : m.k \in Shells /\ m.form = "exec")

JudgeParse(P, s, off, spec, o) ==
  LET ok == o.r = "ok"
      both == ok /\ spec.res = "ok"
      only(kinds) == {spec.ins[i].k : i \in 1..Len(spec.ins)} \subseteq kinds
      \* a document of nothing but these kinds is accepted
      taken(kinds) == <<"accepted", spec.res = "ok" /\ only(kinds) => ok>>
      same(kinds) == <<"values", both => Mean(Only(o.ins, kinds)) = Mean(Only(spec.ins, kinds))>>
      tiled(kinds) == <<"nothing lost or added", ok => AllTiles(s, off, o.ins, kinds)>>
  IN Verdict(
  CASE P = "C01" -> << <<"an outcome", o.r \notin {"panic", "hang", "abort"}>>,
                       <<"content verbatim", o.same>> >>
    [] P = "C03" -> << <<"keywords", ok => KeywordsOK(s, off, o.ins)>>,
                       <<"kinds", both => KindsOf(o.ins) = KindsOf(spec.ins)>>,
                       <<"places", both => [i \in 1..Len(o.ins) |-> o.ins[i].sp[1]]
                                           = [i \in 1..Len(spec.ins) |-> spec.ins[i].sp[1]]>> >>
    [] P = "C04" -> << <<"accepted", spec.res = "ok" => ok>>,
                       <<"rejected", spec.res = "syntax" => ~ok>>,
                       <<"residue", ok => ResidueOK(s, off, o.ins)>> >>
    [] P = "C05" -> << <<"nesting and order", ok => TreesOK(s, off, o.ins)>>,
                       <<"contents", ok => ItemsOK(s, off, o.ins)>>,
                       <<"texts", ok => AllTexts(s, off, o.ins)>>,
                       <<"spans", both => (KindsOf(o.ins) = KindsOf(spec.ins) =>
                            \A i \in 1..Len(o.ins) : SpanTree(o.ins[i]) = SpanTree(spec.ins[i]))>> >>
    [] P = "C08" -> << <<"texts", ok => AllTexts(s, off, o.ins)>>,
                       <<"values", both => ShellMean(s, off, o.ins) = ShellMean(s, off, spec.ins)>>,
                       taken({"RUN", "CMD", "ENTRYPOINT", "MISC"}) >>
    [] P = "C09" -> << <<"elements", both => ExecMean(o.ins) = ExecMean(spec.ins)>>,
                       <<"list", ok => AllTiles(s, off, Execs(o.ins), Shells)>>,
                       taken(Shells) >>
    [] P = "C10" -> << same({"ARG", "ENV", "LABEL"}), tiled({"ARG", "ENV", "LABEL"}), taken({"ARG", "ENV", "LABEL"}) >>
    [] P = "C11" -> << <<"bad escape rejected", "escape" \in spec.bad => ~ok>>,
                       <<"good escapes accepted", spec.res = "ok" => o.r # "escape">>,
                       <<"decoded", ok => \A x \in DecodedItems(s, off, o.ins) :
                           LET t == SrcOf(s, off, x[1])
                               u == Unquote(t)
                               l == Unquote(DropEscapedBreaks(t))
                           IN (u.ok /\ u.v = x[2]) \/ (l.ok /\ l.v = x[2])
                              \/ (StringEnd(t, 1) # Len(t) + 1 /\ x[2] = t)>>,
                       <<"values", both => Agree(DecodedItems(s, off, o.ins), DecodedItems(s, off, spec.ins))>> >>
    [] P = "C12" -> << same({"FROM"}), tiled({"FROM"}), <<"reference", ok => FromsOK(o.ins)>>,
                       <<"bad digest rejected", "digest" \in spec.bad => ~ok>>,
                       <<"good digest accepted", spec.res = "ok" => o.r # "digest">>, taken({"FROM"}) >>
    [] P = "C13" -> << same({"COPY"}), tiled({"COPY"}), taken({"COPY"}) >>
    [] P = "C14" -> << same({"MISC"}), tiled({"MISC"}), <<"split", ok => MiscSplitOK(s, off, o.ins)>>, taken({"MISC"}) >>
    [] P = "C17" -> << <<"globals", ok => GlobalsOK(o.ins, o.ga)>> >>
    [] P = "C24" -> << <<"kind", ~ok /\ spec.res = "syntax" => o.r = "syntax">>,
                       <<"position", ~ok /\ o.r = "syntax" /\ spec.res = "syntax" =>
                                       o.pos >= off[spec.left] /\ o.pos <= off[Len(off)]>>,
                       <<"rule", ~ok /\ spec.res = "invalid" => o.r \in spec.bad>>,
                       <<"well-formed", spec.res = "ok" => o.r # "syntax">> >>
    [] OTHER -> <<>>)

SinglePs == {"C01", "C03", "C04", "C05", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17", "C24"}
===========================================================================
