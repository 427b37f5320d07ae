---------------------------- MODULE GenRefScan ----------------------------
(* All strings of up to Size tokens.                                           *)
EXTENDS RefScan, Json, IOUtils, TLC
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Size == IF Thorough THEN 6 ELSE 5
Tokens == <<T("a"), T(":"), T("/"), T("@"), T("."), T("localhost"), T("8"), T("sha256:b")>> \o (IF Thorough THEN <<<<233>>>> ELSE <<>>)
Odd == {T("LOCALHOST/a"), T("localhost"), T("localhost:1/a"), T("localhostx/a"), T("xlocalhost/a"), <<233, SLASH, 128512, COLON, 233>>, T("a/b.c/d:e"), T("a/b:1/c"),
        T("$v/a"), T("${a.b}/c:${t}"), T("//"), T("a b/c d:e f"), T("h.io//a"), T(".../a"), T("a/localhost/b"), T("LocalHost:/@:"), <<LF>>, T("a\n:b"), T("[::1]:5000/a:b")}
\* words that the library's source mentions, and some of the domain, in every place
Dict == IF "DICT" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DICT).words ELSE <<>>
Around == <<<<T(""), T("")>>, <<T(""), T("/a")>>, <<T(""), T("/a:b")>>, <<T(""), T("/a@b")>>, <<T("a/"), T("")>>, <<T("a.b/"), T(":c")>>, <<T("a:"), T("")>>, <<T("a:b"), T("")>>, <<T("a@"), T("")>>, <<T("a@b"), T("")>>, <<T("x"), T("/a:b")>>, <<T(""), T("/library/a")>>,
            <<T(""), T(":5/a")>>, <<T(""), T(".b/a")>>>>
VARIABLES n
gvars == <<fvars, n>>
Init == \/ FInit(<<>>) /\ n = 0
        \/ n = Size /\ \E s \in Odd : FInit(s)
        \/ n = Size /\ \E w \in 1..Len(Dict), k \in 1..Len(Around) : FInit(Around[k][1] \o Dict[w] \o Around[k][2])
Grow == /\ n >= 0 /\ n < Size /\ n' = n + 1
        /\ \E k \in 1..Len(Tokens) : rtext' = rtext \o Tokens[k]
        /\ UNCHANGED <<at, ph, reg, rim, tag, hash>>
Pick == n >= 0 /\ n' = -1 /\ UNCHANGED fvars
Next == Grow \/ Pick \/ (n = -1 /\ ScanRef /\ UNCHANGED n) \/ (n = -1 /\ End /\ UNCHANGED gvars)
Spec == Init /\ [][Next]_gvars
Emit == n = -1 /\ End =>
  PrintT(ToJson([t |-> "img", d |-> rtext, x |-> [died |-> FALSE, ref |-> Scanned, shown |-> rtext, again |-> Scanned, shown2 |-> rtext]]))
===========================================================================
