---------------------------- MODULE GenResolve ----------------------------
(* Documents made of ARG, FROM and other lines; the references of their FROM   *)
(* instructions and some others are resolved, and names looked up.             *)
EXTENDS Dockerfile, Resolve, Json, IOUtils
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Size == IF Thorough THEN 5 ELSE 4
Lines == <<T("ARG a\n"), T("ARG a=1\n"), T("ARG b=$a\n"), T("arg a=${b}\n"), T("ARG b=\"h.io/x:$c\"\n"), T("FROM $a\n"), T("FROM x/${b}:$a AS z\n"), T("# ARG a=2\n"), T("ENV a=3\n"), T("ARG c=\n"), T("ARG A=q\n")>>
ChainOf(m, x) == Flatten([k \in 1..m |-> T("ARG v" \o ToString(k) \o "=" \o (IF k < m THEN "${v" \o ToString(k + 1) \o "}" ELSE "end") \o "\n")]) \o x
Chains == {ChainOf(m, T("FROM $v1:$v2\nFROM $v3\nFROM $v4/$v2\n")) : m \in 14..20}
Dict == IF "DICT" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DICT).words ELSE <<>>
Placed(w, k) == CASE k = 1 -> T("ARG ") \o w \o T("=1\nARG b=$") \o w \o T("\nFROM x:$b\nFROM $") \o w
                  [] k = 2 -> T("ARG a=") \o w \o T("\nARG b=$a/x\nFROM $a\nFROM ${b}:$a")
                  [] k = 3 -> T("FROM ") \o w \o T(":$a\nFROM $") \o w \o T("/x")
                  [] k = 4 -> T("ARG a=1\n") \o w \o T(" x\nARG b=2\nFROM $a$b\nARG c=3\nFROM $c")
                  [] OTHER -> T("ARG b=") \o w \o T("\nARG a=1\nFROM ") \o w \o T("/$a AS ") \o w \o T("\nFROM a:$b")
RefTexts == <<T("$a"), T("${b}/c:$a"), T("x$c"), T("$A$a"), T("a:b@c"), T("$nope"), T("${a}_$"), T("localhost/$b")>>
AllNames == <<T("a"), T("b"), T("c"), T("A"), T("v16"), <<>>>>

VARIABLES n
gvars == <<pvars, n>>
Start0(d) == /\ doc = d /\ off = <<>> /\ pos = 0 /\ out = <<>> /\ ga = <<>> /\ froms = 0 /\ bad = {} /\ left = 0 /\ st = "build"
Init == \/ Start0(<<>>) /\ n = 0
        \/ n = Size /\ \E d \in Chains : Start0(d)
        \/ n = Size /\ \E w \in 1..Len(Dict), k \in 1..5 : Start0(Placed(Dict[w], k))
Grow == /\ st = "build" /\ n < Size /\ n' = n + 1
        /\ \E k \in 1..Len(Lines) : doc' = doc \o Lines[k]
        /\ UNCHANGED <<off, pos, st, out, ga, froms, bad, left>>
Go == /\ st = "build" /\ off' = Offsets(doc) /\ pos' = 1 /\ st' = "running"
      /\ UNCHANGED <<doc, out, ga, froms, bad, left, n>>
Next == Grow \/ Go \/ (Next0 /\ UNCHANGED n)
Spec == Init /\ [][Next]_gvars
Finished == st \in {"accepted", "rejected"}
FromRefs == [k \in 1..Len(Only(out, {"FROM"})) |-> Only(out, {"FROM"})[k].im.c]
Cases == FromRefs \o RefTexts
R(text) == ResolveText(out, text)
Holds == Finished /\ Outcome = "ok" =>
  /\ GlobalsOK(out, ga)
  /\ \A k \in 1..Len(Cases) : /\ ResolveStated(out, Cases[k], R(Cases[k]))
                              /\ OnlyGlobals(out, Cases[k])
Emit == Finished /\ Outcome = "ok" =>
  PrintT(ToJson([t |-> "res", d |-> doc, refs |-> RefTexts, names |-> AllNames,
    x |-> [died |-> FALSE, o |-> [r |-> "ok", ga |-> ga],
           res |-> [k \in 1..Len(Cases) |-> [from |-> Cases[k], got |-> R(Cases[k]).got, used |-> R(Cases[k]).used, plain |-> R(Cases[k]).got]],
           gets |-> [k \in 1..Len(AllNames) |-> [n |-> AllNames[k], got |-> GlobalNamed(out, AllNames[k])]]]]))
===========================================================================
