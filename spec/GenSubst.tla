----------------------------- MODULE GenSubst -----------------------------
(* Texts of up to Size tokens against tables of variables and limits.          *)
EXTENDS SubstM, Json, IOUtils, TLC
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
Size == IF Thorough THEN 4 ELSE 3
Tokens == <<T("$a"), T("${a}"), T("$b"), T("x"), T("$"), T("{"), T("}"), T("${b_1}"), <<233>>, T("-"), T("$c")>>
V(s) == T(s)
A == T("a")  B == T("b")  C == T("c")  B1 == T("b_1")  AX == T("ax")
Envs == << <<>>, <<<<A, V("1")>>>>, <<<<A, V("$b")>>, <<B, V("2")>>>>, <<<<A, V("$a")>>>>,
           <<<<A, V("${b_1}$c")>>, <<B1, V("$c$c")>>, <<C, V("")>>, <<AX, V("q")>>>>,
           <<<<A, V("1")>>, <<B, V("$c")>>, <<C, V("$b")>>, <<A, V("$x")>>, <<T("x"), V("y$")>>>>,
           <<<<A, V("${b")>>, <<B, V("$$c}")>>, <<C, V("$z")>>, <<B1, <<233>>>>, <<T("A"), V("no")>>, <<T("ab"), V("no")>>>>,
           <<<<B, V("$c")>>, <<C, V("$a")>>, <<A, V("$d-$b_1")>>, <<T("d"), V("$e")>>, <<T("e"), V("end")>>, <<B1, V("$e")>>>> >>
Depths == IF Thorough THEN {0, 1, 2, 3, 4, 5, 16} ELSE {0, 1, 2, 3, 5}
\* words that the library's source mentions, and some of the domain: as names, as values, as text
Dict == IF "DICT" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DICT).words ELSE <<>>
Given(w, k) == CASE k = 1 -> <<T("$") \o w, <<<<w, V("1")>>>>>>
                 [] k = 2 -> <<T("x${") \o w \o T("}y"), <<<<w, V("1")>>>>>>
                 [] k = 3 -> <<T("$a"), <<<<A, w>>>>>>
                 [] k = 4 -> <<T("$") \o w, <<<<A, V("1")>>>>>>
                 [] k = 5 -> <<w \o T("$a"), <<<<A, w \o T("$b")>>, <<B, w>>>>>>
                 [] OTHER -> <<T("${a}") \o w, <<<<A, T("${") \o w \o T("}")>>, <<w, V("1")>>>>>>
VARIABLES n
gvars == <<mvars, n>>
Init == \/ MInit(<<>>, <<>>, 0) /\ n = 0
        \/ n = -1 /\ \E w \in 1..Len(Dict), k \in 1..6 : MInit(Given(Dict[w], k)[1], Given(Dict[w], k)[2], 3)
Grow == /\ n >= 0 /\ n < Size /\ n' = n + 1
        /\ \E k \in 1..Len(Tokens) : src' = src \o Tokens[k]
        /\ UNCHANGED <<env, max, stack, res, used, sst>>
Pick == /\ n >= 0 /\ n' = -1
        /\ \E k \in 1..Len(Envs) : env' = Envs[k]
        /\ \E d \in Depths : max' = d
        /\ stack' = <<[s |-> src, p |-> 1]>>
        /\ UNCHANGED <<src, res, used, sst>>
Next == Grow \/ Pick \/ (n = -1 /\ SubstStep /\ UNCHANGED n) \/ (n = -1 /\ Stopped /\ UNCHANGED gvars)
Spec == Init /\ [][Next]_gvars /\ WF_gvars(Next)
Terminates == <>(n = -1 /\ Stopped)
Ok == n = -1 => Bounded /\ AsFunction /\ AsStated /\ Identity
Zed == T("zed")
Emit == n = -1 /\ Stopped =>
  PrintT(ToJson([t |-> "sub", d |-> src, vars |-> env, depth |-> max, used0 |-> <<Zed>>,
    x |-> IF sst = "done" THEN [died |-> FALSE, res |-> <<res>>, used |-> used \cup {Zed}]
          ELSE [died |-> FALSE, res |-> <<>>]]))
===========================================================================
