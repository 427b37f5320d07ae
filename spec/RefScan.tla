------------------------------ MODULE RefScan -----------------------------
(* Image references (C15) as a one-pass scanner, checked against the rules.    *)
EXTENDS Image

VARIABLES rtext, at, ph, reg, rim, tag, hash
fvars == <<rtext, at, ph, reg, rim, tag, hash>>
\* ph: "first" (before the first slash), "name", "tag", "hash", "end"
FInit(s) == rtext = s /\ at = 1 /\ ph = "first" /\ reg = <<>> /\ rim = <<>> /\ tag = <<>> /\ hash = <<>>
More == at <= Len(rtext) /\ ph # "end"
Step == at' = at + 1 /\ UNCHANGED rtext
\* what has been read so far turns out to be a registry, or else the text is read again as a name
Registry == /\ More /\ ph = "first" /\ rtext[at] = SLASH /\ IsRegistry(Slice(rtext, 1, at))
            /\ reg' = <<Slice(rtext, 1, at)>> /\ ph' = "name"
            /\ Step /\ UNCHANGED <<rim, tag, hash>>
NoRegistry == /\ ph = "first" /\ (at > Len(rtext) \/ (At(rtext, at) = SLASH /\ ~IsRegistry(Slice(rtext, 1, at))))
              /\ ph' = "name" /\ at' = 1
              /\ UNCHANGED <<rtext, reg, rim, tag, hash>>
Look == /\ More /\ ph = "first" /\ rtext[at] # SLASH /\ Step /\ UNCHANGED <<ph, reg, rim, tag, hash>>
Name == /\ More /\ ph = "name" /\ rtext[at] \notin {COLON, ATSIGN}
        /\ rim' = Append(rim, rtext[at]) /\ Step /\ UNCHANGED <<ph, reg, tag, hash>>
TagStart == /\ More /\ ph = "name" /\ rtext[at] = COLON
            /\ tag' = <<<<>>>> /\ ph' = "tag" /\ Step /\ UNCHANGED <<reg, rim, hash>>
TagChar == /\ More /\ ph = "tag" /\ rtext[at] # ATSIGN
           /\ tag' = <<Append(tag[1], rtext[at])>> /\ Step /\ UNCHANGED <<ph, reg, rim, hash>>
\* a digest makes everything before it the name
HashStart == /\ More /\ ph \in {"name", "tag"} /\ rtext[at] = ATSIGN
             /\ rim' = (IF tag = <<>> THEN rim ELSE rim \o <<COLON>> \o tag[1])
             /\ tag' = <<>> /\ hash' = <<<<>>>> /\ ph' = "hash" /\ Step /\ UNCHANGED reg
HashChar == /\ More /\ ph = "hash"
            /\ hash' = <<Append(hash[1], rtext[at])>> /\ Step /\ UNCHANGED <<ph, reg, rim, tag>>
Finish == /\ ph \in {"name", "tag", "hash"} /\ at > Len(rtext) /\ ph' = "end"
          /\ UNCHANGED <<rtext, at, reg, rim, tag, hash>>
ScanRef == Registry \/ NoRegistry \/ Look \/ Name \/ TagStart \/ TagChar \/ HashStart \/ HashChar \/ Finish
Scanned == [reg |-> reg, im |-> rim, tag |-> tag, hash |-> hash]
End == ph = "end"

\* the rules, on any reference r reported for the string s
RefRules(s, r) ==
  << <<"round trip", RefRoundTrip(s, r)>>,
     <<"tag or digest", RefExclusive(r)>>,
     <<"registry", RefRegistry(s, r)>>,
     <<"tag and digest", r = ParseRef(s)>>,
     <<"stable", RefStable(r)>> >>
AllRules(s, r) == \A k \in 1..5 : RefRules(s, r)[k][2]
ScannerAgrees == End => Scanned = ParseRef(rtext)
RulesHold == End => AllRules(rtext, Scanned) /\ RefName(Scanned)
===========================================================================
