----------------------------- MODULE GenConcat -----------------------------
(* Documents put together of pieces of lines; every one is parsed, cut at every *)
(* beginning of a line, and its instructions are parsed alone.                  *)
EXTENDS Concat, Json, IOUtils
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
N(a, b) == IF Thorough THEN b ELSE a
Ts(strs) == [j \in 1..Len(strs) |-> T(strs[j])]
Hex64 == [i \in 1..64 |-> 97 + (i % 6)]
EACUTE == <<233>>
Tables == <<
  [t |-> Ts(<<"FROM a\n", "ARG a=1\r\n", "# c\n", "\n", " \t", "RUN b \\\n# c\n c\n", "!\n", "ENV a=1 b=2\n", "ENV k \\\n v\n", "x y\n", "from $a AS z\n", "ARG a=\"\\q\"\n", "LABEL \"a\" b\n", "CMD [\"a\", \\\n", "\"b\"]\n", "FROM a@x\n">>) \o <<T("COPY --a=") \o EACUTE \o T(" b c\n")>>, n |-> N(3, 4)],
  [t |-> Ts(<<"FROM a", "x y", "# c", " ", "\n", "\r\n", "\r", "\\\n", "RUN", " b", "ENV a=b", "[\"a\"", ",", "]", "a", "\\\n# c\n", "\"">>), n |-> N(4, 5)],
  [t |-> <<T("FROM h.io/a@sha256:") \o Hex64 \o <<LF>>, T("# ") \o EACUTE \o <<LF>>, T("ARG v\n"), T("ARG w='") \o EACUTE \o T("'\n"), T("FROM --p=q b AS c\n"), T("ENTRYPOINT [ ]\n"), T("RUN a\\\n\\\n b\n"), T("ENV k=v \\\n\n"), T("LABEL a=b \\\n c=d\n")>>, n |-> N(4, 5)] >>

\* words that the library's source mentions, and some of the domain
Dict == IF "DICT" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DICT).words ELSE <<>>
Lines(w, k) == CASE k = 1 -> <<T("FROM ") \o w, T("FROM a"), T("FROM ") \o w \o T(" AS b"), T("RUN ") \o w, T("FROM c")>>
                 [] k = 2 -> <<T("ARG ") \o w, w \o T(" x"), T("FROM a AS ") \o w, w \o T(" y"), T("# ") \o w, T("FROM b:") \o w>>
                 [] k = 3 -> <<T("# ") \o w, T("ARG a=") \o w, T("FROM a"), T("ENV ") \o w \o T("=a"), T("COPY --from=") \o w \o T(" a b"), T("FROM ") \o w \o T("/a"), T("USER ") \o w>>
                 [] OTHER -> <<w, T("FROM a"), w, T("FROM ") \o w, T("LABEL a=") \o w, T("CMD ") \o w, T("FROM b")>>
Together(lines) == Flatten([q \in 1..Len(lines) |-> lines[q] \o <<LF>>])
VARIABLES fam, n
gvars == <<pvars, fam, n>>
Init == /\ st = "build"
        /\ \/ fam \in 1..Len(Tables) /\ n = 0 /\ doc = <<>>
           \/ fam = 1 /\ n = Tables[1].n /\ \E w \in 1..Len(Dict), k \in 1..4 : doc = Together(Lines(Dict[w], k))
        /\ off = <<>> /\ pos = 0 /\ out = <<>> /\ ga = <<>> /\ froms = 0 /\ bad = {} /\ left = 0
Fill == /\ st = "build" /\ n < Tables[fam].n
        /\ \E q \in 1..Len(Tables[fam].t) : doc' = doc \o Tables[fam].t[q]
        /\ n' = n + 1
        /\ UNCHANGED <<off, pos, st, out, ga, froms, bad, left, fam>>
Go == /\ st = "build" /\ n > 0
      /\ off' = Offsets(doc) /\ pos' = 1 /\ st' = "running"
      /\ UNCHANGED <<doc, out, ga, froms, bad, left, fam, n>>
Next == Fill \/ Go \/ (Next0 /\ UNCHANGED <<fam, n>>)
Spec == Init /\ [][Next]_gvars

Finished == st \in {"accepted", "rejected"}
Types == st # "build" => TypeOK
Entire == [res |-> Outcome, ins |-> out, ga |-> ga, bad |-> bad, left |-> left]
Cuts == SelectSeq([c \in 1..(Len(doc) + 1) |-> c], LAMBDA c : LineStart(doc, c))
Front(c) == SubSeq(doc, 1, c - 1)
Back(c) == SubSeq(doc, c, Len(doc))
Inner(c) == Outcome = "ok" /\ Outside(off, out, c)
GoodCuts == SelectSeq(Cuts, LAMBDA c : Inner(c) \/ Closed(Front(c), Parse(Front(c))))
\* the whole is what the parts are
Composes == Finished => \A q \in 1..Len(GoodCuts) : LET c == GoodCuts[q] a == Parse(Front(c)) b == Parse(Back(c)) IN
              /\ Joined(Front(c), a, b, Entire)
              /\ Inner(c) => a.res = "ok" /\ b.res = "ok"
\* the parser gets to a cut in exactly the state in which it accepts the front
Passes == st = "running" /\ LineStart(doc, pos) => LET p == Parse(Front(pos)) IN
              p.res # "syntax" /\ p.ins = out /\ p.ga = ga /\ p.bad = bad
\* every instruction means what its text means
Lonely == Finished => \A q \in 1..Len(out) : LET p == Parse(Alone(doc, off, out[q])) IN
              Outcome = "ok" => p.res = "ok" /\ p.ins = <<AloneIs(out[q])>>
Obs(p) == IF p.res = "ok" THEN [r |-> "ok", ins |-> p.ins, ga |-> p.ga] ELSE IF p.res = "syntax" THEN [r |-> "syntax"] ELSE [ins |-> <<>>]
Emit == Finished => PrintT(ToJson([t |-> "cat", d |-> doc, cuts |-> [q \in 1..Len(GoodCuts) |-> GoodCuts[q] - 1],
    x |-> [died |-> FALSE, o |-> Obs(Entire),
           parts |-> [q \in 1..Len(GoodCuts) |-> <<Obs(Parse(Front(GoodCuts[q]))), Obs(Parse(Back(GoodCuts[q])))>>],
           alone |-> IF Outcome = "ok" THEN [q \in 1..Len(out) |-> [r |-> "ok", ins |-> <<AloneIs(out[q])>>]] ELSE <<>>]]))
============================================================================
