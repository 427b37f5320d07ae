---------------------------- MODULE Dockerfile ----------------------------
(* The parser as a state machine.  It works through the text one record at a  *)
(* time: blanks, then an instruction, a comment or nothing, then blanks, then  *)
(* a line break or the end of the text.  One action per kind of record.        *)
EXTENDS Instr

VARIABLES
  doc,      \* the text (code points); constant during a run
  off,      \* byte offset of every position of doc
  pos,      \* start of the next record
  st,       \* "running", "accepted" or "rejected"
  out,      \* instructions found so far
  ga,       \* global arguments: the ARG instructions before the first FROM
  froms,    \* number of FROM instructions so far
  bad,      \* rules broken by the contents of well-formed instructions
  left      \* end of the last record that could be parsed, once rejected

pvars == <<doc, off, pos, st, out, ga, froms, bad, left>>

\* where the record at p starts, and what follows one that ends at e
Start(s, p) == SkipBlanks(s, p)
After(s, e) == LET j == SkipBlanks(s, e)
                   b == BreakEnd(s, j)
               IN IF At(s, j) = EOI THEN [st |-> "accepted", pos |-> j]
                  ELSE IF b = 0 THEN [st |-> "rejected", pos |-> j]
                  ELSE [st |-> "running", pos |-> b]

Init0(d) == /\ doc = d
            /\ off = Offsets(d)
            /\ pos = 1
            /\ st = "running"
            /\ out = <<>>
            /\ ga = <<>>
            /\ froms = 0
            /\ bad = {}
            /\ left = 0

Proceed(e) ==
  LET a == After(doc, e) IN
  /\ st' = a.st
  /\ pos' = a.pos
  /\ left' = IF a.st = "rejected" THEN e ELSE 0
  /\ UNCHANGED <<doc, off>>

Take(m) ==
  /\ Proceed(m.e)
  /\ out' = Append(out, m.ins)
  /\ ga' = IF m.ins.k = "ARG" /\ froms = 0 THEN Append(ga, m.ins) ELSE ga
  /\ froms' = IF m.ins.k = "FROM" THEN froms + 1 ELSE froms
  /\ bad' = bad \cup m.bad

Here == Start(doc, pos)
\* an instruction of a known kind whose operands fit
Typed(kind) ==
  /\ st = "running"
  /\ KindAt(doc, Here) = kind
  /\ \E m \in {Known(doc, off, Here, froms, kind)} : m.e # 0 /\ Take(m)

From == Typed("FROM")
Arg == Typed("ARG")
Label == Typed("LABEL")
Run == Typed("RUN")
Cmd == Typed("CMD")
Entrypoint == Typed("ENTRYPOINT")
Copy == Typed("COPY")
Env == Typed("ENV")
\* any other keyword, and the known ones with operands that do not fit
Misc ==
  /\ st = "running"
  /\ KindAt(doc, Here) # "MISC" => Known(doc, off, Here, froms, KindAt(doc, Here)).e = 0
  /\ \E m \in {MiscIns(doc, off, Here)} : m.e # 0 /\ Take(m)
Comment ==
  /\ st = "running"
  /\ At(doc, Here) = HASH
  /\ Proceed(LineEnd(doc, Here))
  /\ UNCHANGED <<out, ga, froms, bad>>
\* nothing on this line, or something that is no record at all
Blank ==
  /\ st = "running"
  /\ At(doc, Here) # HASH
  /\ InsAt(doc, off, Here, froms).e = 0
  /\ Proceed(Here)
  /\ UNCHANGED <<out, ga, froms, bad>>

Next0 == From \/ Arg \/ Label \/ Run \/ Cmd \/ Entrypoint \/ Copy \/ Env \/ Misc \/ Comment \/ Blank

Done == st # "running"
\* the outcome of a finished run
Outcome == IF st = "rejected" THEN "syntax" ELSE IF bad # {} THEN "invalid" ELSE "ok"

(* ---- the same run as a function, for predicates on two documents ---- *)
RECURSIVE ParseRec(_, _, _, _)
ParseRec(s, o, p, acc) ==
  LET i == Start(s, p)
      c == At(s, i)
      m == IF IsAlpha(c) THEN InsAt(s, o, i, acc.froms) ELSE NoMatch
      isIns == m.e # 0
      e == IF c = HASH THEN LineEnd(s, i) ELSE IF isIns THEN m.e ELSE i
      a == After(s, e)
      next == IF ~isIns THEN acc
              ELSE [ins |-> Append(acc.ins, m.ins),
                    ga |-> IF m.ins.k = "ARG" /\ acc.froms = 0 THEN Append(acc.ga, m.ins) ELSE acc.ga,
                    froms |-> IF m.ins.k = "FROM" THEN acc.froms + 1 ELSE acc.froms,
                    bad |-> acc.bad \cup m.bad,
                    res |-> "", left |-> 0]
  IN IF a.st = "running" THEN ParseRec(s, o, a.pos, next)
     ELSE [next EXCEPT !.left = IF a.st = "rejected" THEN e ELSE 0,
                       !.res = IF a.st = "rejected" THEN "syntax"
                               ELSE IF next.bad # {} THEN "invalid" ELSE "ok"]
Parse(s) == ParseRec(s, Offsets(s), 1, [ins |-> <<>>, ga |-> <<>>, froms |-> 0, bad |-> {}, res |-> "", left |-> 0])

(* ---- what the state machine itself guarantees ---- *)
TypeOK == /\ st \in {"running", "accepted", "rejected"}
          /\ pos \in 1..(Len(doc) + 1)
          /\ bad \subseteq {"escape", "digest"}
          /\ froms \in 0..Len(out)
\* exactly one action is possible until the run ends, and each one moves on
Functional == st = "running" =>
   LET i == Here IN
   Cardinality({k \in Kinds : KindAt(doc, i) = k /\ Known(doc, off, i, froms, k).e # 0}) <= 1
AgreesWithParse == Done =>
   LET p == Parse(doc) IN p.res = Outcome /\ p.ins = out /\ p.ga = ga /\ p.bad = bad /\ p.left = left
Moves == [][(pos' > pos) \/ (st' # "running")]_pvars
===========================================================================
