----------------------------- MODULE GenStages ----------------------------
(* Documents of FROM instructions that refer to each other in all ways, and of *)
(* other instructions around them; their stages and lookups among them.        *)
EXTENDS Dockerfile, Stages, Json, IOUtils
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Ps == IOEnv.PROP
N(a, b) == IF Thorough THEN b ELSE a
Ts(strs) == [j \in 1..Len(strs) |-> T(strs[j])]
Pairs(xs, ys) == [j \in 1..(Len(xs) * Len(ys)) |-> T("FROM ") \o xs[1 + ((j - 1) \div Len(ys))] \o ys[1 + ((j - 1) % Len(ys))] \o <<LF>>]
Images == Ts(<<"a", "A", "b", "scratch", "ScratcH", "alpine:3", "0">>)
Aliases == Ts(<<"", " AS a", " as B", " As A", " AS scratch", " AS 0">>)
\* letters that fold to ASCII ones only outside ASCII
KELVIN == <<8490>>
Folds == << KELVIN \o T("s"), T("k") \o <<383>>, <<304>>, <<305>>, <<65355, 65363>> >>
\* [lines, how many]
Many == [j \in 1..12 |-> T("FROM x AS s") \o Digits(j) \o <<LF>>]
Tables ==
  CASE Ps = "C18" ->
    << [t |-> Ts(<<"FROM a\n", "from b AS X\n", "RUN x\n", "ARG a\n", "# c\n", "COPY --from=0 a b\n", "ENV FROM=a\n">>), n |-> N(5, 6)] >>
   [] Ps = "C19" ->
    << [t |-> Pairs(Images, Aliases), n |-> N(2, 3)],
       [t |-> Ts(<<"FROM a\n", "FROM a AS a\n", "FROM x AS A\n", "FROM b AS B\n", "FROM scratch AS b\n", "FROM x AS scratch\n", "FROM B\n", "FROM Scratch\n", "RUN a\n">>), n |-> N(4, 5)],
       [t |-> Ts(<<"FROM x AS ks\n", "FROM ks\n", "FROM KS AS i\n">>) \o [j \in 1..Len(Folds) |-> T("FROM ") \o Folds[j] \o <<LF>>], n |-> N(3, 4)],
       [t |-> Pairs(Ts(<<"h.io/a", "a:1", "$a", "h.io/b:2">>), Ts(<<"", " as a">>)), n |-> N(3, 4)] >>
   [] OTHER ->
    << [t |-> Ts(<<"FROM x AS a\n", "FROM x AS A\n", "FROM x AS 1\n", "FROM x AS 07\n", "FROM a AS x-1\n", "FROM b\n", "FROM x AS 18446744073709551616\n">>), n |-> N(4, 5)],
       [t |-> Ts(<<"FROM x AS ks\n", "FROM x AS KS\n", "FROM x AS i\n", "FROM ks\n">>) \o <<T("FROM ") \o KELVIN \o T("s AS b\n")>>, n |-> N(3, 4)],
       [t |-> Ts(<<"FROM x AS a\n", "ARG a\n", "ARG b=1\n", "ARG A=a\n", "ARG a=1\n", "RUN ARG a\n", "arg ab\n">>), n |-> N(5, 6)] >>
Queries == Ts(<<"a", "A", "b", "x-1", "X-1", "x", "ab", "0", "1", "3", "00", "07", "01", "+1", "+0", "-1", "-0", "+", "", " 1", "1 ", "0x1", "18446744073709551615", "18446744073709551616",
                "000000000000000000000000001", "99999999999999999999", "s3", "S12", "11", "12", "ks", "Ks", "I">>) \o Folds \o << <<8490>>, <<65297>>, T("a") \o <<0>> >>

\* words that the library's source mentions, and some of the domain
Dict == IF "DICT" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DICT).words ELSE <<>>
Around(w, k) == CASE k = 1 -> T("FROM ") \o w \o T(" AS b\nRUN a\nFROM b\nFROM ") \o w
                  [] k = 2 -> T("FROM x AS ") \o w \o T("\nFROM ") \o w \o T(" AS a\nARG a\nFROM a\nCOPY --from=") \o w \o T(" a b\n")
                  [] k = 3 -> T("FROM a\nARG b\n") \o w \o T(" a\nARG a\nFROM a\nRUN c")
                  [] k = 4 -> T("FROM ") \o w \o T("/a AS a\nFROM a:") \o w \o T(" AS b\nARG ") \o w \o T("\nFROM b\nFROM ") \o w \o T("a AS c")
                  [] k = 5 -> w \o T(" x\nARG a\nFROM a AS ") \o w \o T("\nFROM ") \o w \o T(" AS ") \o w \o T("\nFROM ") \o w
                  [] k = 6 -> T("FROM x AS a\nFROM ") \o w \o T("a\nFROM a") \o w \o T("\nFROM ") \o w \o T("/a\nFROM a/") \o w \o T("\nFROM a:") \o w \o T("\nFROM ") \o w \o T(":a\n")
                  [] k = 7 -> T("FROM x\nARG ") \o w \o T("\nARG a=") \o w \o T("\nARG ") \o w \o T("=1\nARG a\nFROM x AS a\nARG a\nARG ") \o w \o T("=1\nARG a=") \o w \o T("\n")
                  [] OTHER -> T("# ") \o w \o T("\nFROM a AS b\nFROM b AS x-") \o w \o T("\n# ") \o w \o T("\nFROM x-") \o w \o T("\nENV a ") \o w
VARIABLES fam, n
gvars == <<pvars, fam, n>>
Start0(d) == doc = d /\ off = <<>> /\ pos = 0 /\ out = <<>> /\ ga = <<>> /\ froms = 0 /\ bad = {} /\ left = 0 /\ st = "build"
Init == \/ fam \in 1..Len(Tables) /\ n = 0 /\ Start0(<<>>)
        \/ fam = 1 /\ n = Tables[1].n /\ Start0(Flatten(Many) \o T("FROM s12 AS q\nARG a\nFROM S9\nFROM Q"))
        \/ fam = 1 /\ n = Tables[1].n /\ \E w \in 1..Len(Dict), k \in 1..8 : Start0(Around(Dict[w], k))
Grow == /\ st = "build" /\ n < Tables[fam].n /\ n' = n + 1
        /\ \E q \in 1..Len(Tables[fam].t) : doc' = doc \o Tables[fam].t[q]
        /\ UNCHANGED <<off, pos, st, out, ga, froms, bad, left, fam>>
Go == /\ st = "build" /\ off' = Offsets(doc) /\ pos' = 1 /\ st' = "running"
      /\ UNCHANGED <<doc, out, ga, froms, bad, left, fam, n>>
Next == Grow \/ Go \/ (Next0 /\ UNCHANGED <<fam, n>>)
Spec == Init /\ [][Next]_gvars
Finished == st \in {"accepted", "rejected"}
Sts == StagesOf(out)
Stated(sts) ==
  /\ PartitionStated(out, sts) /\ ParentsStated(out, sts)
  /\ \A q \in 1..Len(Queries) :
       LET nm == ByName(sts, Queries[q]) IN
       /\ nm # <<>> => sts[nm[1] + 1].nm = <<LowerSeq(Queries[q])>>
       /\ \A j \in 1..Len(sts) : sts[j].nm = <<LowerSeq(Queries[q])>> => nm # <<>> /\ nm[1] + 1 <= j
Holds == Finished /\ Outcome = "ok" => Stated(Sts)
Emit == Finished /\ Outcome = "ok" => LET sts == Sts qs == IF Ps = "C20" THEN Queries ELSE <<>> IN
  PrintT(ToJson([t |-> "stg", d |-> doc, q |-> qs,
    x |-> [died |-> FALSE, o |-> [r |-> "ok"], st |-> sts, ways |-> <<TRUE, TRUE, TRUE, TRUE, TRUE>>,
           byname |-> [q \in 1..Len(qs) |-> [q |-> qs[q], got |-> ByName(sts, qs[q])]],
           bystr |-> [q \in 1..Len(qs) |-> [q |-> qs[q], got |-> ByString(sts, qs[q])]],
           args |-> Flatten([q \in 1..Len(qs) |-> [j \in 1..Len(sts) |-> [q |-> qs[q], s |-> j - 1, got |-> ArgIndex(out, sts[j], qs[q])]]])]]))
===========================================================================
