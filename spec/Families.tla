----------------------------- MODULE Families -----------------------------
(* Families of documents, as tables of slots: a document of the family is one *)
(* text for every slot, put together.  Each family is explored exhaustively;   *)
(* the thorough tier has longer tables.                                        *)
EXTENDS Text, IOUtils, Json

Thorough == "VERIF_TIER" \in DOMAIN IOEnv /\ IOEnv.VERIF_TIER = "thorough"
More(a, b) == IF Thorough THEN a \o b ELSE a
N(quick, thorough) == IF Thorough THEN thorough ELSE quick

Ts(strs) == [i \in 1..Len(strs) |-> T(strs[i])]
Rep(n, table) == [i \in 1..n |-> table]
NBSP == <<160>>   EACUTE == <<233>>   SMILE == <<128512>>   NULC == <<0>>   USC == <<31>>  LSEP == <<8232>>  KELVIN == <<8490>>
VT == <<11>>

\* every ASCII character, and others that libraries like to treat as blanks, letters or line breaks
Chars == [i \in 1..128 |-> <<i - 1>>] \o
  [i \in 1..23 |-> << <<128, 133, 160, 173, 233, 383, 1632, 5760, 6158, 8192, 8203, 8232, 8233, 8239, 8490, 12288, 55295, 57344, 65279, 65281, 65533, 128512, 1114111>>[i] >>]
CharsAt(heads, tails) == <<Ts(heads), Chars, Ts(tails)>>

\* words that the library's source mentions, and some of the domain (written by check.py)
Dict == IF "DICT" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DICT).words ELSE <<T("docker")>>
DictAt(heads, tails) == <<Ts(heads), Dict, Ts(tails)>>

\* two words at once: h word m word t
DictPairs == IF "DICT" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.DICT).pairs ELSE <<<<T("["), T("]")>>>>
PairsAt(rows) == << Flatten([r \in 1..Len(rows) |-> LET h == T(rows[r][1]) m == T(rows[r][2]) z == T(rows[r][3]) IN
                                [i \in 1..Len(DictPairs) |-> h \o DictPairs[i][1] \o m \o DictPairs[i][2] \o z]]) >>

Hex63 == [i \in 1..63 |-> 97 + (i % 6)]
Sha(x) == T("@sha256:") \o x
Digest == Sha(Hex63 \o T("0"))

\* separators
Gap1 == Ts(More(<<" ", "\t", " \\\n", "\\\n# c\n  ">>, <<"  ", " \\ \n\n \t", "\\\r\n#\r\n\r\n ">>))
Gap0 == <<<<>>>> \o Gap1
\* what follows an instruction
Tail4 == Ts(<<"", "\n", "\nRUN z", " \n# c\nFROM b\n">>)
Tail2 == Ts(<<"", "\nRUN z">>)
Odd == <<NBSP, EACUTE, SMILE, NULC, USC, LSEP, VT>>

Words == Ts(<<"x", "a-b", "#", "a#b", "$v", "x\\", "\\n", "[">>)
Strings == Ts(<<"\"p q\"", "'p'", "\"\"", "\"p", "\"a\\\"b\"", "'it\\'s'", "\"a\\\n b\"", "\"#\"", "\"a\"b", "\"\\q\"", "`x`">>)

Fam(name) ==
  CASE name = "env" ->
        <<Ts(More(<<"ENV">>, <<"eNv">>)), Gap1 \o Ts(<<"", "-">>), Ts(<<"a", "B_1", "">>),
          Ts(<<"=", " ", "", " \\\n", "= ">>), Words \o Strings,
          Ts(<<"", " ", " \\\n# c\n">>), Ts(More(<<"", "b=1", "b='' c=\"x\"">>, <<"b", "=">>)), Tail2>>
    [] name = "seq.env" ->
        <<Ts(<<"ENV ">>)>> \o Rep(N(4, 5), Ts(<<"", "a", "=", " ", "\"x y\"", "\\\n", "#", "\"", "\n", "\\", "'">>)) \o <<Tail2>>
    [] name = "arg" ->
        <<Ts(More(<<"ARG">>, <<"aRg">>)), Gap1 \o Ts(<<"", "=">>), Ts(<<"a", "A_1", "_a", "1", "a-b", "">>),
          Ts(<<"", "=", "= ", " =", "==">>), <<<<>>>> \o Words \o Strings,
          Ts(More(<<"", " ", " b">>, <<" \\\n", "=", ",">>)), Tail2>>
    [] name = "label" ->
        <<Ts(More(<<"LABEL">>, <<"laBel">>)), Gap1 \o Ts(<<"">>), Ts(<<"a", "a.b-c/d", "\"k\"", "\"k l\"", "'k\\\nl'", "k\\", "`k`", "">>),
          Ts(<<"=", " ", "", " = ", " \\\n">>), Ts(<<"x", "a#b", "x\\">>) \o Strings,
          Ts(More(<<"", " ">>, <<" \\\n# c\n">>)), Ts(More(<<"", "b=1", "\"c d\"='' e=f">>, <<"b", "=">>)), Tail2>>
    [] name = "seq.label" ->
        <<Ts(<<"LABEL ">>)>> \o Rep(N(4, 5), Ts(<<"", "a", "=", " ", "\"x y\"", "\\\n", "#", "\"", "\n", "\\", "'k'">>)) \o <<Tail2>>
    [] name = "from" ->
        <<Ts(More(<<"FROM">>, <<"fRoM">>)), Ts(<<"", " --platform=x", " --p=\"a\"", " --p", " --=x", " --a=b\t--c=d", " \\\n--x=y", "--x=y", " --a=$v">>),
          Gap1 \o Ts(<<"">>), Ts(<<"a", "a:1", "$x", "${x}:1", "!", "", "h.io/a@", "localhost:5/x:y", "a:b:c">>) \o
          <<T("a") \o Digest, T("h.io/b:1") \o Digest, T("a") \o Sha(Hex63), T("a") \o Sha(Hex63 \o T("g")), T("a@SHA256:") \o Hex63 \o T("0"), T("a") \o Digest \o T("0")>>,
          Ts(<<"", " as b", " AS B-1_", " As", " aS\tb\t", " \\\n as \\\n# c\n b", " b", "as b", " as b c">> \o More(<<>>, <<" as a.b", " ass b", " as \"b\"", " # c">>)), Tail2>>
    [] name = "digest" ->       \* a digest in which any one position is off
        <<Ts(<<"FROM a@">>), Ts(<<"sha256:", "sha256", "Sha256:", "sha512:", "">>), <<Hex63>> \o [i \in 1..63 |-> [Hex63 EXCEPT ![i] = 103]] \o
          [i \in 1..63 |-> [Hex63 EXCEPT ![i] = 70]] \o <<SubSeq(Hex63, 1, 62), SubSeq(Hex63, 1, 31), <<>>>>,
          Ts(<<"0", "", "00", "g", ":", "-", "/", "@", ".", "Z">>), Tail2>>
    [] name = "copy" ->
        <<Ts(More(<<"COPY">>, <<"cOpy">>)), Ts(<<"", " --from=x", " --chown=\"a:b\"", " --a", " --a=b\t--c=d", " \\\n--x=y", "--x=y">>), Gap1,
          Ts(<<"x", "\"a\"", "'b'", "--c=d", "-", "$v/w", "[\"a\",">>), Ts(More(<<" ", "", "\\\n">>, <<"\t", " \\\n# c\n">>)), Ts(<<"y", "", "\"y z\"", "`y`", "\"b\"]", "\\">>), Ts(<<"", " z", " \\\n# c\n/d/", " ">>), Tail2>>
    [] name = "seq.copy" ->
        <<Ts(<<"COPY ">>)>> \o Rep(N(4, 6), Ts(<<"", "a", " ", "--f=v", "\"x\"", "\\\n", "#", "\"", "=">>)) \o <<Tail2>>
    [] name = "exec" ->
        <<Ts(More(<<"RUN ">>, <<"CMD \\\n">>)), Ts(<<"[">>), Gap0, Ts(<<"", "\"a\"", "'b c'", "\"a", "\"\\q\"">>), Ts(<<"", "\\\n# c\n  ">>), Ts(<<"", ",", ",,">>), Ts(<<"", " \\\n ">>),
          Ts(<<"", "\"d\\\"\"", "'e'">>), Ts(<<"", ",", " ">>), Ts(<<"]", "", "]]">>), Ts(<<"", " ", " x">>), Tail2>>
    [] name = "seq.exec" ->
        <<Ts(<<"RUN [", "CMD [", "ENTRYPOINT [">>)>> \o Rep(N(4, 6), Ts(<<"", "\"a\"", ",", " ", "]", "\\\n", "x">>)) \o <<Tail2>>
    [] name = "seq.shell" ->
        <<Ts(More(<<"RUN ">>, <<"CMD ", "ENTRYPOINT ">>))>> \o Rep(N(4, 5), Ts(<<"", "a", " ", "\\\n", "\\ \t\r\n", "#", "# c\n", "\n", "\\", "\"">>)) \o <<Ts(<<"", "z", "\nRUN z">>)>>
    [] name = "seq.envshell" ->
        <<Ts(More(<<"ENV k ", "USER ">>, <<"ENV k a">>))>> \o Rep(N(4, 5), Ts(<<"", "a", " ", "\\\n", "\\ \t\r\n", "#", "# c\n", "\n", "=", "\"">>)) \o <<Tail2>>
    [] name = "shell" ->
        <<Ts(<<"RUN", "ENTRYPOINT", "cmd", "ENV k", "USER">>), Ts(More(<<" ", "\t\\\n# c\n">>, <<"  ", "\\\n\n", " \\\n  ">>)), Ts(<<"a", "#", "[\"a\"] x">>) \o More(<<EACUTE>>, Ts(<<"\"a\"", "a # b">>)),
          Ts(<<"", " \\\n", "\\ \n\t", " \\\r\n# c \\\r\n", "\\\n  # c\n#d\n">>), Ts(<<"b", "", " # c", "\\x">>), Ts(<<"", "\\\n", "\\\n#", " ">>), Ts(<<"", "e">>), Tail2>>
    [] name = "misc" ->
        <<Ts(<<"USER", "x", "Onbuild", "FROMX", "RU", "arg", "Copy", "label", "RUN", "ENV">>), <<T(" "), T("\t"), T(""), T("="), T("-a "), T("\\\n"), T(" \\\n"), T("\\\n# c\n"), NBSP, T("1")>>,
          Ts(<<"a", "", "_b", "!", "a \\\n b", "#c", "\"x y\"", "[ a", "a=b">>) \o <<EACUTE>>, Ts(<<"", " ", " \\\n# c\n d", "\\">>), Tail4>>
    [] name = "keyword" ->
        <<Ts(<<"", " ", "\t\t">>), Ts(<<"FROM", "from", "fROm", "RUN", "rUN", "ARG", "aRg", "LABEL", "labeL", "COPY", "cOpY", "ENTRYPOINT", "entryPoint", "CMD", "cmd", "ENV", "eNV", "ADD", "add", "FRO", "AR">>)
            \o <<T("RU") \o <<383>>, <<8490>> \o T("x")>>,
          <<<<>>, T(" "), T("x"), T("="), T("-"), T("_"), T("1"), NBSP, T(" \\\n"), T("\\\n\n# c\n"), T("\n")>>, Ts(<<"a", "a=b", "a b", "[\"a\"]", "", "--a=b c d", "\"a\" b", "a AS b">>), Tail4>>
    [] name = "escape" ->
        <<Ts(<<"ARG a=", "LABEL a=", "LABEL ", "LABEL k ", "RUN [", "ENV a=", "ENV a ", "COPY a ", "FROM --a=">>), Ts(<<"\"", "'">>), Ts(<<"", "z">>),
          Ts(<<"", "\\n", "\\a", "\\v", "\\\\", "\\`", "\\\"", "\\'", "\"", "'", "`", "\\x41", "\\x4", "\\xg1", "\\101", "\\400", "\\377", "\\12", "\\8", "\\u0041", "\\u004", "\\ud800", "\\uD7FF", "\\uE000", "\\U0001F600", "\\U00110000", "\\U0010ffff",
               "\\q", "\\ ", "\\\n", "\\\r\n", "\\x+1", "\\+12", "\\u00e9", "\\\\n", "\\\\\\n", "\\b\\f\\r\\t", "\n", "\\0", "\\000", "\\c">>) \o <<<<BS>> \o EACUTE, EACUTE, NULC, USC, SMILE>>,
          Ts(More(<<"", "1">>, <<"\\n">>)), Ts(<<"\"", "'">>), Ts(<<"", "]", "=x">>)>>
    [] name = "seq.quoted" ->
        <<Ts(<<"ARG a=\"", "LABEL a=\"", "RUN [\"", "ENV a '">>)>> \o Rep(N(3, 5), Ts(<<"", "\\", "\"", "'", "n", "x41", "\n", "0", " ", "u0041">>)) \o <<Ts(<<"\"", "\"]", "'">>)>>
    [] name = "seq.lines" ->
        Rep(N(4, 6), <<<<>>>> \o Ts(<<"FROM a", "x y", "# c", " ", "\n", "\r\n", "\\\n", "RUN \\\n", "!">>)) \o <<Ts(<<"", "\nRUN z", "\r">>)>>
    [] name = "lines" ->       \* sequences of whole lines
        Rep(N(3, 4), <<<<>>>> \o Ts(<<"FROM a\n", "ARG a=1\r\n", "# FROM c\n", "\n", " \t\r\n", "RUN b \\\n# c\n\n", "RUN b \\\n c\n", "!\n", "ENV a=1 b\n", "COPY a\n", "USER\n", "LABEL \n", "CMD [\"a\",\n", "from a as\n", "ARG a=\"\\q\"\n">>))
          \o <<Ts(<<"", "FROM z", "  # end", "\tRUN y \\\n", "?">>)>>
    [] name = "inter" ->       \* lines that have to do with each other
        Rep(N(3, 4), Ts(<<"FROM a\n", "FROM a AS b\n", "FROM b AS a\n", "FROM 0\n", "COPY --from=0 x y\n", "COPY --from=1 x y\n", "COPY --from=b x y\n", "COPY --from=c x x\n", "ARG v=1\n", "ARG v\n", "FROM $v AS b\n", "ENV v=$w\n", "ENV v=2 w=$v\n",
            "CMD a\n", "CMD [\"a\"]\n", "ENTRYPOINT a\n", "ENTRYPOINT [\"$v\", \"a\"]\n", "RUN $v\n", "LABEL a=1 a=2\n", "SHELL [\"a\"]\n", "ONBUILD CMD x\n", "USER $v\n", "WORKDIR x\n">>)) \o <<Ts(<<"", "COPY --from=b a a", "CMD a">>)>>
    [] name = "globals" ->
        Rep(N(4, 6), <<<<>>>> \o Ts(<<"ARG a\n", "ARG a=1\n", "ARG b=$a\n", "FROM x\n", "FROM $a AS z\n", "# c\n", "ENV a=1\n", "USER x\n">>))
    [] name = "residue" ->     \* what is left over after a complete instruction
        <<Ts(<<"FROM a", "FROM a AS b", "ARG a", "ARG a=\"b\"", "LABEL a=b", "LABEL \"a\" \"b\"", "ENV a=b", "ENV a \"b\"", "RUN [\"a\"]", "CMD b", "COPY a b", "USER x", "# c", "">>),
          <<<<>>>> \o Gap1 \o Ts(<<"\"", "=">>), <<<<>>>> \o Ts(<<"x", "as", "#", "# c", "\\", "\"", ",", "]", "=", "--a=b">>) \o <<NBSP>>, <<<<>>>> \o Gap1, Tail2>>
    [] name = "unicode" ->
        <<<<<<>>, EACUTE \o T("x"), T("# ") \o SMILE \o T("\n")>>, Ts(<<"RUN ", "ENV a=", "ENV a ", "LABEL ", "ARG a=", "COPY a", "FROM --a=", "x ", "CMD [\"", "FROM a">>), Odd \o <<T("a"), KELVIN>>,
          Ts(<<"", " ", "\\\n", "\"]", "=\"">>), More(<<<<>>, EACUTE, LSEP>>, <<SMILE, NBSP, NULC, VT, KELVIN>>), Ts(<<"", "\"">>), Tail2>>
    [] name = "digest2" ->
        <<Ts(<<"FROM a@", "FROM h.io/a:b@", "FROM a@b@", "FROM $v@">>), Ts(<<"sha256:", "sha256::", "sha256:a:", "x:sha256:", ":", "">>), <<Hex63 \o T("0"), Hex63>>, Ts(<<"", ":", ":latest", "@", "@x", "/", "/b", "0", ":0", "}">>), Ts(<<"", " as b", "\nFROM z">>)>>
    [] name = "chars.from" -> CharsAt(<<"FROM", "FROM ", "FROM a", "FROM a as ", "FROM a as b", "FROM --", "FROM --a", "FROM --a=", "FROM --a=b", "FROM a ">>, <<"", "x", " c", "=c d">>)
    [] name = "chars.copy" -> CharsAt(<<"COPY", "COPY ", "COPY a", "COPY a ", "COPY a b", "COPY --", "COPY --a", "COPY --a=", "COPY --a=b", "COPY a b ">>, <<"", "x", " c", "=c d e">>)
    [] name = "chars.arg" -> CharsAt(<<"ARG", "ARG ", "ARG a", "ARG a=", "ARG a=b", "ARG a=\"", "ARG a=\"b", "ARG a=\"b\"", "ARG a='", "ARG a ">>, <<"", "x", "\"", "'", "=c">>)
    [] name = "chars.env" -> CharsAt(<<"ENV", "ENV ", "ENV a", "ENV a=", "ENV a=b", "ENV a=\"", "ENV a='b", "ENV a ", "ENV a b", "ENV a \"", "ENV a=\"b\"", "ENV a=b ">>, <<"", "x", "\"", " c=d", "=c">>)
    [] name = "chars.label" -> CharsAt(<<"LABEL", "LABEL ", "LABEL a", "LABEL a=", "LABEL a=b", "LABEL \"", "LABEL \"a", "LABEL \"a\"", "LABEL \"a\"='", "LABEL a ", "LABEL a \"b\"", "LABEL a=b ">>, <<"", "x", "\"", " c=d", "'">>)
    [] name = "chars.run" -> CharsAt(<<"RUN", "RUN ", "RUN a", "RUN a \\\n", "RUN a \\\n#", "RUN a\\", "CMD [", "CMD [\"", "CMD [\"a", "CMD [\"a\"", "CMD [\"a\",", "CMD [\"a\"]", "ENTRYPOINT ['">>, <<"", "x", "\"]", "]", "\n b">>)
    [] name = "chars.misc" -> CharsAt(<<"", "X", "USER", "USER ", "USER a", "USER a \\\n", "USER a \\\n#", "#", "\n", "FROM a\n", "USER\\">>, <<"", "x", " y", "FROM b", "\nFROM b">>)
    [] name = "edge.front" -> <<Chars, Ts(<<"", "\n", " ">>), Ts(<<"FROM a", "FROM a\nRUN b\n", "# c">>)>>    \* before a complete document
    [] name = "edge.back" -> <<Ts(<<"FROM a", "FROM a\nRUN b", "# c", "ARG a=\"b\"", "CMD [\"a\"]">>), Ts(<<"", "\n", " ">>), Chars, Ts(<<"", "\n">>)>>    \* behind one
    [] name = "dict.line" -> DictAt(<<"", " ", "FROM x\n", "# c\n">>, <<"", " a", " a b\n", "\nFROM b", " RUN a", " --a=b c d", " [\"a\"]", "=a">>)
    [] name = "dict.from" -> DictAt(<<"FROM ", "FROM a/", "FROM a:", "FROM a@", "FROM a as ", "FROM --", "FROM --a=", "FROM --platform=">>, <<"", "/a", ":1", "=b c", " as b", " a", "/a@sha256:">>)
    [] name = "dict.copy" -> DictAt(<<"COPY ", "COPY a ", "COPY --", "COPY --a=", "COPY --from=", "COPY a b ">>, <<"", " b", "=b c d", " b c">>)
    [] name = "dict.arg" -> DictAt(<<"ARG ", "ARG a=", "ARG a=\"", "ARG a='x">>, <<"", "=b", "\"", "x'", " b">>)
    [] name = "dict.env" -> DictAt(<<"ENV ", "ENV a=", "ENV a ", "ENV a=\"", "ENV a 'x", "ENV a=b ">>, <<"", "=b", "\"", "x'", " b=c", " b">>)
    [] name = "dict.label" -> DictAt(<<"LABEL ", "LABEL a=", "LABEL a ", "LABEL \"", "LABEL \"a\"='x", "LABEL a=b ">>, <<"", "=b", "\"", "x'", "\"=c", " b">>)
    [] name = "dict.run" -> DictAt(<<"RUN ", "RUN a ", "RUN a \\\n", "RUN a \\\n#", "CMD [\"", "ENTRYPOINT [\"a\", '", "CMD [", "ENTRYPOINT [\"a\"">>, <<"", " b", "\"]", "']", "]", " \\\n c", "\", \"b\"]">>)
    [] name = "pairs.line" -> PairsAt(<< <<"RUN x ", "\nFROM y AS z\n", "\n">>, <<"# ", "\nUSER x\n", " y">> >>)
    [] name = "pairs.from" -> PairsAt(<< <<"FROM ", "a", "">>, <<"FROM a", " as ", "\n">>, <<"FROM --", "=", " a">> >>)
    [] name = "pairs.copy" -> PairsAt(<< <<"COPY ", "a b", "\n">>, <<"COPY ", " b ", "">>, <<"COPY --", "=", " a b">> >>)
    [] name = "pairs.arg" -> PairsAt(<< <<"ARG ", "=", "">>, <<"ARG a=", "x", "">> >>)
    [] name = "pairs.env" -> PairsAt(<< <<"ENV ", "=", " b=c">>, <<"ENV a ", " ", "">>, <<"ENV a=", "x", "">> >>)
    [] name = "pairs.label" -> PairsAt(<< <<"LABEL ", "=", " b=c">>, <<"LABEL a=", "x", "">> >>)
    [] name = "pairs.run" -> PairsAt(<< <<"RUN ", "a b", "">>, <<"ENTRYPOINT a ", " \\\n# c\n ", " b">>, <<"CMD [\"", "\", \"", "\"]">> >>)
    [] OTHER -> <<>>
===========================================================================
