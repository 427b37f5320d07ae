------------------------------- MODULE Scale ------------------------------
(* Texts of any length.  A text h u u ... u z with n units is described by     *)
(* numbers (how many instructions of each kind, flags, pairs, pieces, where    *)
(* the last instruction ends, which stage comes last, ...).  Every number that *)
(* grows by the same amount with every further unit in the specification's own *)
(* outcome for a few units is known for any number of them.                    *)
EXTENDS Dockerfile, Stages

KindOrder == <<"FROM", "ARG", "LABEL", "RUN", "CMD", "ENTRYPOINT", "COPY", "ENV", "MISC">>
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
WidthOf(sp) == sp[2] - sp[1]
PairRaws(ps) == Flatten([i \in 1..Len(ps) |-> <<ps[i].n, ps[i].v>>])
RawsOf(m) ==
  CASE m.k = "FROM" -> PairRaws(m.fl) \o <<m.im>> \o m.al
    [] m.k = "ARG" -> <<m.n>> \o m.v
    [] m.k = "LABEL" -> PairRaws(m.ls)
    [] m.k \in {"RUN", "CMD", "ENTRYPOINT"} -> IF m.form = "exec" THEN m.x.es ELSE <<>>
    [] m.k = "COPY" -> PairRaws(m.fl) \o m.src \o <<m.dst>>
    [] m.k = "ENV" -> [i \in 1..Len(m.vs) |-> m.vs[i].n]
    [] m.k = "MISC" -> <<m.n>>
TextsOf(m) ==
  CASE m.k \in {"RUN", "CMD", "ENTRYPOINT"} -> IF m.form = "shell" THEN <<m.x>> ELSE <<>>
    [] m.k = "ENV" -> [i \in 1..Len(m.vs) |-> m.vs[i].v]
    [] m.k = "MISC" -> <<m.a>>
    [] OTHER -> <<>>
Per(ins, f(_)) == Sum([i \in 1..Len(ins) |-> f(ins[i])])
FlagCount(m) == IF m.k \in {"FROM", "COPY"} THEN Len(m.fl) ELSE 0
PairCount(m) == IF m.k = "LABEL" THEN Len(m.ls) ELSE IF m.k = "ENV" THEN Len(m.vs) ELSE 0
ElemCount(m) == IF m.k \in {"RUN", "CMD", "ENTRYPOINT"} /\ m.form = "exec" THEN Len(m.x.es) ELSE 0
PieceCount(x, t) == Len(SelectSeq(x.ps, LAMBDA p : p.t = t))
TextSum(m, f(_)) == LET ts == TextsOf(m) IN Sum([i \in 1..Len(ts) |-> f(ts[i])])
PieceSize(x) == Sum([i \in 1..Len(x.ps) |-> Len(x.ps[i].c) + WidthOf(x.ps[i].sp)])
Whose(p) == CASE p.t = "stage" -> p.ix [] p.t = "scratch" -> -2 [] OTHER -> -1
StageFacts(ins) ==
  LET sts == StagesOf(ins) n == Len(sts) IN
  IF n = 0 THEN <<0, -1, 0, -1, -1>> ELSE <<n, sts[n].ix, Len(sts[n].ins), Whose(sts[n].pa), Whose(sts[n].ro)>>
LastFrom(ins) == LET fs == SelectSeq(ins, LAMBDA m : m.k = "FROM") IN IF fs = <<>> THEN -1 ELSE fs[Len(fs)].ix
Facts(ins, gargs) ==
  [q \in 1..9 |-> Per(ins, LAMBDA m : IF m.k = KindOrder[q] THEN 1 ELSE 0)]
  \o <<Len(gargs), LastFrom(ins), Per(ins, FlagCount), Per(ins, PairCount), Per(ins, ElemCount),
       Per(ins, LAMBDA m : IF m.k = "COPY" THEN Len(m.src) ELSE 0),
       Per(ins, LAMBDA m : IF m.k = "FROM" THEN Len(m.al) ELSE 0),
       Per(ins, LAMBDA m : IF m.k = "ARG" THEN Len(m.v) ELSE 0),
       Per(ins, LAMBDA m : LET r == RawsOf(m) IN Sum([i \in 1..Len(r) |-> Len(r[i].c)])),
       Per(ins, LAMBDA m : LET r == RawsOf(m) IN Sum([i \in 1..Len(r) |-> WidthOf(r[i].sp)])),
       Per(ins, LAMBDA m : TextSum(m, LAMBDA x : PieceCount(x, "s"))),
       Per(ins, LAMBDA m : TextSum(m, LAMBDA x : PieceCount(x, "c"))),
       Per(ins, LAMBDA m : TextSum(m, PieceSize)),
       Per(ins, LAMBDA m : TextSum(m, LAMBDA x : Len(x.tx)))>>
  \o (IF ins = <<>> THEN <<-1, -1, -1, -1>> ELSE ins[1].sp \o ins[Len(ins)].sp)
  \o StageFacts(ins)
FactNames == KindOrder \o <<"globals", "index of the last FROM", "flags", "pairs", "elements", "sources", "aliases", "values",
  "size of contents", "size of spans", "pieces", "comments", "size of pieces", "size of texts", "first start", "first end", "last start", "last end",
  "stages", "index of the last stage", "its instructions", "its parent", "its root">>
\* which of them say something about a property
Kinds9 == 1..9
About(P) ==
  CASE P = "C03" -> Kinds9 [] P = "C05" -> {18, 19, 22, 24, 25, 26, 27} [] P = "C08" -> {20, 21, 22, 23} [] P = "C09" -> {14} \cup Kinds9
    [] P = "C10" -> {13, 17, 18, 19} \cup Kinds9 [] P = "C11" -> {18} [] P = "C12" -> {1, 11, 12, 16, 18} [] P = "C13" -> {7, 12, 15, 18}
    [] P = "C14" -> {9, 18, 20, 22} [] P = "C17" -> {10} [] P = "C18" -> {1, 28, 29, 30} [] P = "C19" -> {31, 32}
    [] P = "C04" -> Kinds9 [] P = "C07" -> (1..18) \cup {20, 23} \cup (28..32) [] OTHER -> {}
Unknown == -9      \* not looked at by the harness

RECURSIVE Times(_, _)
Times(u, n) == IF n = 0 THEN <<>> ELSE u \o Times(u, n - 1)

Linear(a, b, c) == b - a = c - b
===========================================================================
