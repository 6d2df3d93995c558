------------------------------ MODULE UCDValues ------------------------------
(* Names of property values (PropertyValueAliases), their parsing and printing,  *)
(* and predicates on values.  TRACE: what the implementation reports for every   *)
(* property and value, and the result of parsing many spellings.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
RefV == ndJsonDeserialize(IOEnv.UCD_REF \o "/values.ndjson")
RefH == ndJsonDeserialize(IOEnv.UCD_REF \o "/heads.ndjson")
CONSTANT Block
VARIABLES k
r == T[k]

Props == {RefV[i].prop : i \in 1..Len(RefV)}
Of == TLCEval([p \in Props |-> {i \in 1..Len(RefV) : RefV[i].prop = p}])
HeadOf(p) == RefH[CHOOSE i \in 1..Len(RefH) : RefH[i].prop = p]

\* spelling: ASCII letters match in either case, everything else only itself
LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(t) == [i \in 1..Len(t) |-> LowerC(t[i])]
Named(p, t) == {i \in Of[p] : Lower(RefV[i].a) = Lower(t) \/ Lower(RefV[i].l) = Lower(t)}
Yes == {<<121>>, <<121,101,115>>, <<116>>, <<116,114,117,101>>}
No == {<<110>>, <<110,111>>, <<102>>, <<102,97,108,115,101>>}
Parse(p, t) ==
    IF p \in Props THEN (IF Named(p, t) = {} THEN "-" ELSE RefV[CHOOSE i \in Named(p, t) : TRUE].abbr)
    ELSE IF Lower(t) \in Yes THEN "Y" ELSE IF Lower(t) \in No THEN "N" ELSE "-"
\* no spelling names two values
ASSUME \A p \in Props : \A i \in Of[p] : Named(p, RefV[i].a) = {i} /\ Named(p, RefV[i].l) = {i}

\* predicates are reported as a string of the groups that hold, in this order
Groups == << <<"LC", {"Lu","Ll","Lt"}>>, <<"L", {"Lu","Ll","Lt","Lm","Lo"}>>, <<"M", {"Mn","Mc","Me"}>>,
             <<"N", {"Nd","Nl","No"}>>, <<"P", {"Pc","Pd","Ps","Pe","Pi","Pf","Po"}>>,
             <<"S", {"Sm","Sc","Sk","So"}>>, <<"Z", {"Zs","Zl","Zp"}>>, <<"C", {"Cc","Cf","Cs","Co","Cn"}>> >>
RECURSIVE GroupStr(_, _)
GroupStr(v, i) == IF i > Len(Groups) THEN ""
    ELSE IF v \in Groups[i][2] THEN (LET t == GroupStr(v, i + 1) IN IF t = "" THEN Groups[i][1] ELSE Groups[i][1] \o " " \o t)
    ELSE GroupStr(v, i + 1)
BidiCat(v) == CASE v \in {"L","R","AL"} -> "Strong"
                [] v \in {"EN","ES","ET","AN","CS","NSM","BN"} -> "Weak"
                [] v \in {"B","S","WS","ON"} -> "Neutral"
                [] OTHER -> "ExplicitFormatting"
Dir(v) == IF v \in {"L","LRE","LRO","LRI"} THEN " ltr" ELSE IF v \in {"R","AL","RLE","RLO","RLI"} THEN " rtl" ELSE ""
Pred(p, v) == CASE p = "gc" -> GroupStr(v, 1)
                [] p = "bc" -> BidiCat(v) \o Dir(v)
                [] OTHER -> ""
Ccc == [NotReordered |-> 0, Overlay |-> 1, Nukta |-> 7, KanaVoicing |-> 8, Virama |-> 9,
        AttatchedBelowLeft |-> 200, AttachedBelow |-> 202, AttachedBelowRight |-> 204, AttachedLeft |-> 208,
        AttachedRight |-> 210, AttachedAboveLeft |-> 212, AttatchedAbove |-> 214, AttatchedAboveRight |-> 216,
        BelowLeft |-> 218, Below |-> 220, BelowRight |-> 222, Left |-> 224, Right |-> 226, AboveLeft |-> 228,
        Above |-> 230, AboveRight |-> 232, DoubleBelow |-> 233, DoubleAbove |-> 234, IotaSubscript |-> 240]

Ok == CASE r.kind = "enum" ->
             /\ r.head = HeadOf(r.prop).head
             \* every value exactly once
             /\ Len(r.all) = Cardinality(Of[r.prop])
             /\ {r.all[i][1] : i \in 1..Len(r.all)} = {RefV[i].abbr : i \in Of[r.prop]}
             /\ \A i \in 1..Len(r.all) :
                  LET v == RefV[CHOOSE j \in Of[r.prop] : RefV[j].abbr = r.all[i][1]]
                  IN r.all[i] = <<v.abbr, v.long, v.human, v.human, Pred(r.prop, v.abbr)>>
        [] r.kind = "bin" ->
             /\ r.head = HeadOf(r.prop).head
             /\ r.all = << <<"N","No","No","No">>, <<"Y","Yes","Yes","Yes">> >>
        [] r.kind = "parse" -> r.got = Parse(r.prop, r.text)
        [] r.kind = "ccc" ->
             /\ r.number = Ccc[r.prop] /\ r.shown = ToString(r.number)
             /\ r.reordered = (IF r.number = 0 THEN 0 ELSE 1) /\ r.notreordered = 1 - r.reordered
        \* properties that are not enumerated
        [] r.kind = "head" -> r.head = (IF r.prop = "age" THEN <<"age", "Age", "Age">>
                                        ELSE <<"ccc", "Canonical_Combining_Class", "Canonical Combining Class">>)
        \* combining classes order by their numbers
        [] r.kind = "cccpair" -> r.got = (IF Ccc[r.prop] < Ccc[r.other] THEN -1 ELSE IF Ccc[r.prop] = Ccc[r.other] THEN 0 ELSE 1)
        \* a text has a directionality (explicit formatting) exactly when one of its characters has
        [] r.kind = "text" ->
             LET has(S) == IF \E i \in 1..Len(r.classes) : r.classes[i] \in S THEN 1 ELSE 0
             IN r.got = <<has({"LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"}),
                          has({"L", "LRE", "LRO", "LRI"}), has({"R", "AL", "RLE", "RLO", "RLI"})>>
Check == IF Ok THEN TRUE ELSE PrintT(ToString(<<"MISMATCH", "T03", k>>))
Init == k \in {1 + Block * b : b \in 0..((Len(T) - 1) \div Block)}
Next == k % Block # 0 /\ k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
