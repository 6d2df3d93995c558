----------------------------- MODULE UCDInspect -----------------------------
(* The character inspector: one row for every character of the arguments (joined *)
(* by single spaces), in order: the character, its code point, its name (else    *)
(* its first abbreviation, else <none>), the long name of its category.          *)
EXTENDS UCDRef, SequencesExt
T == ndJsonDeserialize(IOEnv.TRACE)
RefV == ndJsonDeserialize(IOEnv.UCD_REF \o "/values.ndjson")
CONSTANT Block
VARIABLES k
r == T[k]
Gc == TLCEval([v \in {RefV[i].abbr : i \in {j \in 1..Len(RefV) : RefV[j].prop = "gc"}} |->
        RefV[CHOOSE j \in 1..Len(RefV) : RefV[j].prop = "gc" /\ RefV[j].abbr = v].long])
RECURSIVE First(_, _)
First(s, i) == IF i > Len(s) \/ SubSeq(s, i, i) = ";" THEN SubSeq(s, 1, i - 1) ELSE First(s, i + 1)
Label(c) == LET n == NameOf(c) IN
    IF n # "-" THEN n
    ELSE LET a == ValueAt("alias_abbreviation", c) IN IF a = "-" THEN "<none>" ELSE First(a, 1)
Padded(h) == IF Len(h) < 4 THEN SubSeq("0000", 1, 4 - Len(h)) \o h ELSE h
Row(c) == << IF c \in {10, 32} THEN <<>> ELSE <<c>>,      \* blanks at the ends of the cell are not told apart
             "U+" \o Padded(HexStr(c)), Label(c), Gc[ValueAt("gc", c)] >>
Text == FoldLeft(LAMBDA a, x : IF a.first THEN [first |-> FALSE, s |-> x] ELSE [a EXCEPT !.s = @ \o <<32>> \o x],
                 [first |-> TRUE, s |-> <<>>], r.args).s
Bad == IF r.ok = 0 \/ Len(r.rows) # Len(Text) THEN {0}
       ELSE {i \in 1..Len(Text) : r.rows[i] # Row(Text[i])}
Check == LET b == Bad IN
         IF b = {} THEN TRUE
         ELSE PrintT(ToString(<<"MISMATCH", "L02", k, LET i == CHOOSE i \in b : \A j \in b : i <= j
                  IN IF i = 0 THEN <<0>> ELSE <<i, Text[i], r.rows[i], Row(Text[i])>> >>))
Init == k \in {1 + Block * b : b \in 0..((Len(T) - 1) \div Block)}
Next == k % Block # 0 /\ k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
