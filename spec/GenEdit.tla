------------------------------ MODULE GenEdit -----------------------------
(* A document is parsed, items of it are spliced, and the result is parsed:     *)
(* the parser and the splicer specifications put together (C22).                *)
EXTENDS Dockerfile, Edit, Splicing, Json, IOUtils
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Edits == IF Thorough THEN 3 ELSE 2
Ts(strs) == [j \in 1..Len(strs) |-> T(strs[j])]
EACUTE == <<233>>
Head1 == Ts(<<"", "# c\n\nARG x=1\n">>)
Tail1 == Ts(<<"", "\nUSER z\n">>)
Tables == <<
  <<Head1, Ts(<<"FROM", "from --platform=x", "FROM --p='a' \\\n# c\n  --q=b">>), Ts(<<" a:1", " \\\n h.io/b">>), Ts(<<"", " AS c", "\tas\\\n c">>), Tail1>>,
  <<Head1, Ts(<<"ARG a", "arg a=1", "ARG \\\n a=\"b c\"", "ARG a='x'">>), Tail1>>,
  <<Head1, Ts(<<"LABEL a=b", "LABEL \"a b\"='c'", "label a=b \\\n# c\n \"d\"=e", "LABEL a \"b\"", "LABEL \"a\"\tb", "LABEL a=\"x\\\ny\" b=c">>), Tail1>>,
  <<Head1, Ts(<<"ENV a=b", "ENV a=\"b c\" \\\n\n d='e' f=g", "env a b  c", "ENV a \"b c\"", "ENV a b \\\n# c\n c\\\n d">>), Tail1>>,
  <<Head1, Ts(<<"COPY a b", "copy --from=x a \"b\" c", "COPY --a=\"b\" \\\n --c=d \\\n# c\n e f\\\n g">>) \o <<T("COPY ") \o EACUTE \o T(" 'x' /y")>>, Tail1>>,
  <<Head1, Ts(<<"RUN a b", "CMD a \\\n# c\n b \\\n c", "ENTRYPOINT \\\n a", "RUN a # b">>) \o <<T("RUN ") \o EACUTE \o T(" \\\n# ") \o EACUTE \o T("\nb")>>, Tail1>>,
  <<Head1, Ts(<<"RUN [\"a\"]", "CMD [ \"a\", 'b' ]", "ENTRYPOINT [\"a\\n\",\\\n# c\n \"b\" , 'c']">>), Tail1>>,
  <<Head1, Ts(<<"USER a", "x-y \\\n# c\n b c", "Onbuild\tRUN a">>), Tail1>> >>
Reps(cls) ==
  CASE cls = "image" -> Ts(<<"n", "r.io/a:2">>) [] cls = "alias" -> Ts(<<"n", "Long-er_1">>) [] cls = "flag" -> Ts(<<"v", "\"q:r\"">>)
    [] cls = "path" -> <<T("p"), T("/l/") \o EACUTE>> [] cls = "argname" -> Ts(<<"n", "Nm_2">>) [] cls = "argvalue" -> Ts(<<"v", "\"q r\"">>)
    [] cls = "labelname" -> Ts(<<"n.x", "\"q n\"">>) [] cls = "labelvalue" -> Ts(<<"v", "'a \\\nb'">>) [] cls = "envname" -> Ts(<<"n", "_N2">>)
    [] cls = "envvalue" -> Ts(<<"v", "\"q\\n\"">>) [] cls = "envsingle" -> Ts(<<"v", "v  w # x">>) [] cls = "piece" -> <<T("n"), T("n  ") \o EACUTE \o T(" # m")>>
    [] cls = "miscpiece" -> Ts(<<" n", "\tx y">>) [] cls = "elem" -> <<T("\"\""), T("'") \o EACUTE \o T(" n'")>> [] OTHER -> Ts(<<"Z", "zonk">>)

\* longer instructions around words that the library's source mentions, and some of the domain; one edit each
Dict == IF "DICT" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DICT).words ELSE <<>>
Words == Dict \o Ts(<<"", "a", "e/", "'q'", "a  b">>)
Around(w, k) ==
  CASE k = 1 -> T("COPY a/ b c d ") \o w \o T("\nCOPY a b ") \o w \o T("/ c d/ e f ") \o w \o T("/")
    [] k = 2 -> T("COPY --from=") \o w \o T(" --x=y --z='q' a b/ c/ d/ e/ f/")
    [] k = 3 -> T("LABEL a=1 b=") \o w \o T(" c='d' e=f \\\n g=h \\\n i=") \o w
    [] k = 4 -> T("ENV a=1 b=") \o w \o T(" c='d' e=f \\\n g=h i=") \o w
    [] k = 5 -> T("RUN [\"a\", \"b\", 'c', \"") \o w \o T("\", \"e\", '', \"f\"]")
    [] k = 6 -> T("ARG a=") \o w \o T("\nFROM --a=b --c=d --e=") \o w \o T(" x/") \o w \o T(" AS n\nFROM ") \o w \o T(":1\nFROM z AS ") \o w
    [] k = 7 -> T("RUN a \\\n ") \o w \o T(" \\\n# ") \o w \o T("\n b \\\n c \\\n\n d ") \o w
    [] k = 8 -> T("ENV k ") \o w \o T(" \\\n b ") \o w
    [] OTHER -> T("USER ") \o w \o T(" \\\n b \\\n# x\n c\nARG ") \o w \o T("\n") \o w \o T(" x")
Slots(f) == IF f = 0 THEN 0 ELSE Len(Tables[f])
Most(f) == IF f = 0 THEN Edits - 1 ELSE Edits
VARIABLES fam, slot, edits
gvars == <<pvars, svars, fam, slot, edits>>
Init == /\ \/ doc = <<>> /\ fam \in 1..Len(Tables)
           \/ fam = 0 /\ \E w \in 1..Len(Words), k \in 1..9 : doc = Around(Words[w], k)
        /\ slot = 1 /\ st = "build" /\ edits = <<>>
        /\ off = <<>> /\ pos = 0 /\ out = <<>> /\ ga = <<>> /\ froms = 0 /\ bad = {} /\ left = 0 /\ SInit(<<>>)
Fill == /\ st = "build" /\ slot <= Slots(fam)
        /\ \E q \in 1..Len(Tables[fam][slot]) : doc' = doc \o Tables[fam][slot][q]
        /\ slot' = slot + 1 /\ UNCHANGED <<off, pos, st, out, ga, froms, bad, left, fam, svars, edits>>
Go == /\ st = "build" /\ slot > Slots(fam)
      /\ off' = Offsets(doc) /\ pos' = 1 /\ st' = "running" /\ UNCHANGED <<doc, out, ga, froms, bad, left, slot, fam, svars, edits>>
Ready == /\ st = "accepted" /\ Outcome = "ok" /\ st' = "editing" /\ orig' = doc /\ buf' = doc /\ shifts' = <<>> /\ done' = <<>>
         /\ UNCHANGED <<doc, off, pos, out, ga, froms, bad, left, fam, slot, edits>>
EditItem ==
  /\ st = "editing" /\ Len(edits) < Most(fam)
  /\ LET items == ItemsOf(out) IN \E j \in 1..Len(items) :
       LET it == items[j] cls == ClassOf(doc, off, out, it) reps == Reps(cls) IN
       /\ \A q \in 1..Len(edits) : edits[q].sp # it.sp
       /\ \E q \in 1..Len(reps) :
            /\ Suits(cls, reps[q])
            /\ Splice(it.sp, reps[q])
            /\ edits' = Append(edits, [i |-> it.i, f |-> it.f, j |-> it.j, sp |-> it.sp, r |-> reps[q], v |-> Denotes(cls, reps[q])])
  /\ UNCHANGED <<pvars, fam, slot>>
Next == Fill \/ Go \/ (Next0 /\ UNCHANGED <<slot, fam, svars, edits>>) \/ Ready \/ EditItem
Spec == Init /\ [][Next]_gvars
Editing == st = "editing"
\* the documents of the families are all well-formed, and every splice does what it says
Accepted == fam # 0 => st # "rejected"
Right(p) == p.res = "ok" /\ Mean(p.ins) = Modify(Mean(out), edits, 1)
\* (a word of the dictionary can make an item depend on its neighbours: then nothing suits)
OnlyThat == Editing /\ fam # 0 => Right(Parse(buf))
Refines == Editing => buf = Patch(orig, done)
AsOp(e) == [i |-> e.i, f |-> e.f, j |-> e.j, sp |-> e.sp, r |-> e.r]
Emit == Editing /\ Len(edits) > 0 => LET p == Parse(buf) IN (fam # 0 \/ Right(p)) =>
  PrintT(ToJson([t |-> "re", d |-> doc, put |-> [q \in 1..Len(edits) |-> [i |-> edits[q].i, f |-> edits[q].f, j |-> edits[q].j, r |-> edits[q].r]],
    x |-> [died |-> FALSE, o |-> [r |-> "ok"], ops |-> [q \in 1..Len(edits) |-> AsOp(edits[q])], text |-> buf, o2 |-> [r |-> "ok", ins |-> p.ins, ga |-> p.ga]]]))
===========================================================================
