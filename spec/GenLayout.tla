----------------------------- MODULE GenLayout ----------------------------
(* Instruction templates in which the layout parts run through their variants, *)
(* up to Dev of them at a time: one document in canonical layout, one in the   *)
(* chosen layout.                                                              *)
EXTENDS Layout, Json, IOUtils
Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
More(x, y) == IF Thorough THEN x \o y ELSE x

Sep1 == <<T(" "), T("\t"), T(" \t "), T("\\\n"), T(" \\ \t\r\n\t"), T(" \\\n# c\n"), T("\\\n\n \t# \\\n \r\n  ")>>
SepV == More(Sep1, <<T("\\\r\n#\r\n\\\n"), T(" \\\n \\\n"), T("\\\r "), T("\\\n#a\n#b\n")>>)
Sep3 == <<T(" "), T("\\\r\n"), T(" \\\n# c\n\t")>>
GapV == <<<<>>>> \o SepV
Gap3 == <<<<>>, T("\t\\\n"), T(" \\\n\n# c\n")>>
IndV == <<<<>>, T(" "), T("\t \t")>>
NlV == <<T("\n"), T("\r\n"), T("\n\n"), T("\n# c\n"), T("\r\n \t# FROM z \\\r\n\t\r\n"), T("\r")>>

F(str) == [c |-> "frag", v |-> <<T(str)>>]
K(strs) == [c |-> "kw", v |-> [i \in 1..Len(strs) |-> T(strs[i])]]
S == [c |-> "sep", v |-> SepV]   s == [c |-> "sep", v |-> Sep3]
G == [c |-> "gap", v |-> GapV]   g == [c |-> "gap", v |-> Gap3]
I == [c |-> "ind", v |-> IndV]   L == [c |-> "nl", v |-> NlV]

Templates == <<
  <<I, K(<<"FROM", "from">>), S, F("a:1"), S, K(<<"AS", "as", "aS">>), s, F("b"), L, F("RUN x")>>,
  <<K(<<"FROM", "fRoM">>), S, F("--platform=$p"), S, F("a")>>,
  <<K(<<"FROM", "from">>), s, F("a"), s, K(<<"AS", "as">>), S, F("B"), L, I, K(<<"FROM", "FRom">>), s, F("b")>>,
  <<I, K(<<"ARG", "arg", "aRg">>), S, F("a"), L, I, K(<<"ARG", "Arg">>), S, F("b=\"c d\""), L>>,
  <<I, K(<<"LABEL", "label">>), S, F("a=b"), S, F("\"c d\"='e  f'"), s, F("g=h"), L>>,
  <<K(<<"LABEL", "laBEL">>), S, F("a"), S, F("\"b c\""), L, I, F("USER u  v")>>,
  <<K(<<"LABEL", "label">>), S, F("\"k l\""), S, F("v"), L, F("ENV a b \\\n # c\n  d")>>,
  <<I, K(<<"ENV", "env">>), S, F("a=b"), S, F("c='d  e'"), s, F("f=#g"), L>>,
  <<K(<<"ENV", "eNV">>), S, F("a"), S, F("b  c  # d"), L, I, F("CMD x \\\n  y")>>,
  <<K(<<"ENV", "env">>), S, F("a"), S, F("\"b  c\""), L>>,
  <<I, K(<<"COPY", "copy">>), S, F("--from=a"), s, F("--chown=\"b\""), S, F("x"), s, F("y"), S, F("z"), L>>,
  <<K(<<"COPY", "coPY">>), S, F("a"), S, F("b"), L, K(<<"RUN", "run">>), S, F("ls")>>,
  <<I, K(<<"RUN", "run", "rUn">>), S, F("[\"a\"]"), L, K(<<"CMD", "cmd">>), s, F("[]")>>,
  <<K(<<"CMD", "cMd">>), s, F("["), G, F("\"a\""), G, F(","), G, F("'b'"), g, F("]"), L>>,
  <<K(<<"ENTRYPOINT", "entryPoint">>), s, F("["), g, F("\"a\""), g, F(","), g, F("\"b\""), g, F(","), g, F("\"c\""), g, F("]")>>,
  <<K(<<"ENTRYPOINT", "entrypoint">>), S, F("["), G, F("]"), L, I, K(<<"RUN", "run">>), S, F("a  b"), L>>,
  <<I, K(<<"RUN", "run">>), S, F("a \\\n  # c\n  b"), L, I, K(<<"ENTRYPOINT", "entrypoint">>), S, F("x # y"), L, I, F("ADD a b")>>,
  \* not accepted in any layout
  <<K(<<"FROM", "from">>), S, F("a"), S, F("b"), L, I, F("RUN x")>>,
  <<I, K(<<"COPY", "copy">>), S, F("a=\"b"), S, F("x!"), L, F("!")>>,
  <<K(<<"RUN", "run">>), S, F("[\"a\"]"), G, F("x")>>,
  <<K(<<"ARG", "arg">>), S, F("a=\"b\""), g, F("c")>>,
  <<K(<<"FROM", "from">>), S, F("a@sha256:0"), S, K(<<"as", "AS">>), s, F("b")>>
>>

Dev == IF Thorough THEN 4 ELSE 3

VARIABLES tmpl, k, ps, qs,         \* template, part, canonical and chosen parts
          dev                      \* parts that are not canonical so far
gvars == <<pvars, tmpl, k, ps, qs, dev>>
Part == Templates[tmpl][k]
Init == /\ tmpl \in 1..Len(Templates) /\ k = 1 /\ dev = 0 /\ ps = <<>> /\ qs = <<>> /\ st = "build"
        /\ doc = <<>> /\ off = <<>> /\ pos = 0 /\ out = <<>> /\ ga = <<>> /\ froms = 0 /\ bad = {} /\ left = 0
Choose == /\ st = "build" /\ k <= Len(Templates[tmpl])
          /\ \E i \in 1..Len(Part.v) : /\ dev' = IF i = 1 THEN dev ELSE dev + 1
                                       /\ dev' <= Dev
                                       /\ qs' = Append(qs, [c |-> Part.c, t |-> Part.v[i]])
                                       /\ doc' = doc \o Part.v[i]
          /\ ps' = Append(ps, [c |-> Part.c, t |-> Part.v[1]])
          /\ k' = k + 1
          /\ UNCHANGED <<off, pos, st, out, ga, froms, bad, left, tmpl>>
Go == /\ st = "build" /\ k > Len(Templates[tmpl])
      /\ off' = Offsets(doc) /\ pos' = 1 /\ st' = "running"
      /\ UNCHANGED <<doc, out, ga, froms, bad, left, tmpl, k, ps, qs, dev>>
Next == Choose \/ Go \/ (Next0 /\ UNCHANGED <<tmpl, k, ps, qs, dev>>)
Spec == Init /\ [][Next]_gvars

Finished == st \in {"accepted", "rejected"}
Text0 == Flatten([i \in 1..Len(ps) |-> ps[i].t])
\* "gap" may come to nothing and "sep" may be followed by one: such a choice is no layout
Legal == SameUpToLayout(Text0, ps, doc, qs)
Holds == Finished /\ Legal => SameMeaning(Parse(Text0).res = "ok", Parse(Text0).ins, Outcome = "ok", out)
Canonical == Finished => PartsOK(Text0, ps)
Acc(res) == IF res = "ok" THEN [r |-> "ok"] ELSE [ga |-> <<>>]
Exp(res, ins) == IF res = "ok" THEN [r |-> "ok", ins |-> ins] ELSE [ins |-> <<>>]
Emit == Finished /\ Legal =>
  PrintT(ToJson([t |-> "pair", d |-> Text0, d2 |-> doc,
                 parts |-> [i \in 1..Len(ps) |-> [c |-> ps[i].c, a |-> ps[i].t, b |-> qs[i].t]],
                 x |-> LET p == Parse(Text0) IN
                       [died |-> FALSE, o |-> Exp(p.res, p.ins), o2 |-> Exp(Outcome, out)]]))
===========================================================================
