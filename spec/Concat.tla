------------------------------- MODULE Concat ------------------------------
(* Parsing is local (C25).  A document is cut in two: what the whole means is   *)
(* what the parts mean, one after the other, and every instruction means what   *)
(* its own text means.                                                          *)
EXTENDS Dockerfile, Props

(* ---- the same instruction d bytes further on, with n more FROMs before it ---- *)
ShSp(sp, d) == <<sp[1] + d, sp[2] + d>>
ShR(x, d) == [x EXCEPT !.sp = ShSp(@, d)]
ShRs(xs, d) == [i \in 1..Len(xs) |-> ShR(xs[i], d)]
ShPair(x, d) == [x EXCEPT !.sp = ShSp(@, d), !.n = ShR(@, d), !.v = ShR(@, d)]
ShPairs(xs, d) == [i \in 1..Len(xs) |-> ShPair(xs[i], d)]
ShText(x, d) == [x EXCEPT !.sp = ShSp(@, d), !.ps = ShRs(@, d)]
ShVar(x, d) == [x EXCEPT !.sp = ShSp(@, d), !.n = ShR(@, d), !.v = ShText(@, d)]
ShIns(m, d, n) ==
  LET h == [m EXCEPT !.sp = ShSp(@, d)] IN
  CASE m.k = "FROM" -> [h EXCEPT !.fl = ShPairs(@, d), !.im = ShR(@, d), !.al = ShRs(@, d), !.ix = @ + n]
    [] m.k = "ARG" -> [h EXCEPT !.n = ShR(@, d), !.v = ShRs(@, d)]
    [] m.k = "LABEL" -> [h EXCEPT !.ls = ShPairs(@, d)]
    [] m.k \in {"RUN", "CMD", "ENTRYPOINT"} ->
         IF m.form = "exec" THEN [h EXCEPT !.x = [@ EXCEPT !.sp = ShSp(@, d), !.es = ShRs(@, d)]] ELSE [h EXCEPT !.x = ShText(@, d)]
    [] m.k = "COPY" -> [h EXCEPT !.fl = ShPairs(@, d), !.src = ShRs(@, d), !.dst = ShR(@, d)]
    [] m.k = "ENV" -> [h EXCEPT !.vs = [i \in 1..Len(@) |-> ShVar(@[i], d)]]
    [] m.k = "MISC" -> [h EXCEPT !.n = ShR(@, d), !.a = ShText(@, d)]
Shifted(ins, d, n) == [i \in 1..Len(ins) |-> ShIns(ins[i], d, n)]
FromsIn(ins) == Len(SelectSeq(ins, LAMBDA m : m.k = "FROM"))

(* ---- where a text may be cut ---- *)
\* c is a position at the beginning of a line (a break is not cut apart)
LineStart(s, c) == c = 1 \/ (c <= Len(s) + 1 /\ IsBreak(s[c - 1]) /\ ~(s[c - 1] = CR /\ At(s, c) = LF))
\* A string may go on over several lines, and a backslash continues a line: without these, a text that
\* ends with a line break is complete, whatever follows.
Plain(s) == ~HasChar(s, DQ) /\ ~HasChar(s, SQ) /\ ~HasChar(s, BS)
Closed(a, p) == p.res = "ok" /\ Plain(a) /\ (a = <<>> \/ IsBreak(a[Len(a)]))
\* a line of an accepted document that begins outside its instructions
Outside(o, ins, c) == \A q \in 1..Len(ins) : o[c] <= ins[q].sp[1] \/ o[c] > ins[q].sp[2]

(* ---- what the whole is then ---- *)
JoinIns(insA, insB, d) == insA \o Shifted(insB, d, FromsIn(insA))
JoinGa(insA, gaA, gaB, d) == gaA \o (IF FromsIn(insA) = 0 THEN Shifted(gaB, d, 0) ELSE <<>>)
Bytes(s) == Offsets(s)[Len(s) + 1]
\* for the parts a and b with outcomes [res, ins, ga, bad, left] pa and pb
Joined(a, pa, pb, whole) ==
  /\ whole.res = pb.res
  /\ whole.bad = pb.bad
  /\ whole.res = "syntax" => whole.left = Len(a) + pb.left
  /\ whole.res = "ok" => /\ whole.ins = JoinIns(pa.ins, pb.ins, Bytes(a))
                         /\ whole.ga = JoinGa(pa.ins, pa.ga, pb.ga, Bytes(a))
\* an instruction's own text
Alone(s, o, m) == SrcOf(s, o, m.sp)
AloneIs(m) == ShIns([m EXCEPT !.sp = @], -m.sp[1], IF m.k = "FROM" THEN -m.ix ELSE 0)
============================================================================
