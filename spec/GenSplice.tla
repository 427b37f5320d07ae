----------------------------- MODULE GenSplice ----------------------------
(* All allowed series of splices on small documents: the mechanism against the *)
(* patched text, after every splice.                                            *)
EXTENDS Splicing, Json, IOUtils
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
N(a, b) == IF Thorough THEN b ELSE a
Ts(strs) == [j \in 1..Len(strs) |-> T(strs[j])]
EACUTE == <<233>> SMILE == <<128512>> NICHI == <<26085>>
Rs == Ts(<<"", "x", "long">>) \o <<EACUTE, SMILE \o T("y")>>
Short == Ts(<<"", "zz">>) \o <<EACUTE>>
\* [documents, replacements, how many splices]
Tables == << [d |-> <<T("abcd"), T("a") \o EACUTE \o T("b") \o SMILE>>, r |-> Rs, n |-> N(2, 3)],
             [d |-> <<T("abc"), NICHI \o T("x") \o EACUTE>>, r |-> Short, n |-> N(4, 5)],
             [d |-> <<T("abcdef"), T("a") \o SMILE \o T("bc") \o EACUTE \o T("d")>>, r |-> Short, n |-> N(2, 3)],
             [d |-> <<T("FROM a AS b\nRUN c\n")>>, r |-> Ts(<<"", "lllll">>), n |-> N(1, 2)] >>
VARIABLES fam, hist
gvars == <<svars, fam, hist>>
Init == /\ fam \in 1..Len(Tables) /\ hist = <<>>
        /\ \E q \in 1..Len(Tables[fam].d) : SInit(Tables[fam].d[q])
OffSet(d) == {Bytes(Slice(d, 1, j)) : j \in 1..(Len(d) + 1)}
Step == /\ Len(done) < Tables[fam].n
        /\ \E a \in OffSet(orig), b \in OffSet(orig) :
             /\ Allowed(done, <<a, b>>)
             /\ \E q \in 1..Len(Tables[fam].r) : Splice(<<a, b>>, Tables[fam].r[q])
        /\ hist' = Append(hist, buf') /\ UNCHANGED fam
Spec == Init /\ [][Step]_gvars
Refines == buf = Patch(orig, done)
\* spans still to come are found where their text now is
InPlace == \A a \in OffSet(orig), b \in OffSet(orig) :
             (a < b /\ \A j \in 1..Len(done) : Disjoint(done[j].sp, <<a, b>>)) =>
             LET now == Adjusted(shifts, <<a, b>>) IN
             Slice(buf, Place(buf, now[1]), Place(buf, now[2])) = Slice(orig, Place(orig, a), Place(orig, b))
Emit == Len(done) = Tables[fam].n => PrintT(ToJson([t |-> "spl", d |-> orig, ops |-> done, x |-> [died |-> FALSE, res |-> hist]]))
===========================================================================
