----------------------------- MODULE WordRules -----------------------------
(* Word boundary rules of UAX #29 (Unicode 10.0) over Word_Break classes.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
WSeq == <<"CR","LF","NL","Extend","ZWJ","RI","FO","KA","HL","LE","SQ","DQ","MB","ML","MN","NU","EX",
          "EB","EM","GAZ","EBG","XX">>
WClasses == {WSeq[i] : i \in 1..Len(WSeq)}
NLs == {"CR","LF","NL"}
Ign == {"Extend","FO","ZWJ"}
AHL == {"HL","LE"}
MidL == {"ML","MB","SQ"}
MidN == {"MN","MB","SQ"}

\* WB4: position i is ignored (attached to what precedes it)
Ignored(s, i) == s[i] \in Ign /\ i > 1 /\ s[i-1] \notin NLs
\* previous / next position that is not ignored, 0 if none
RECURSIVE PrevEff(_, _)
PrevEff(s, i) == IF i < 1 THEN 0 ELSE IF Ignored(s, i) THEN PrevEff(s, i - 1) ELSE i
RECURSIVE NextEff(_, _)
NextEff(s, i) == IF i > Len(s) THEN 0 ELSE IF Ignored(s, i) THEN NextEff(s, i + 1) ELSE i
Cls(s, i) == IF i = 0 THEN "" ELSE s[i]
\* number of consecutive RI characters ending at effective position i
RECURSIVE RiRun(_, _)
RiRun(s, i) == IF i = 0 \/ Cls(s, i) # "RI" THEN 0 ELSE 1 + RiRun(s, PrevEff(s, i - 1))

\* is there a boundary between s[i] and s[i+1]?
WBreak(s, i) ==
    LET a == s[i + 1]
        p == PrevEff(s, i)           \* character before, ignoring WB4
        b == Cls(s, p)
        b2 == Cls(s, PrevEff(s, p - 1))
        n == Cls(s, NextEff(s, i + 2))
    IN
    CASE s[i] = "CR" /\ a = "LF"                     -> FALSE  \* WB3
      [] s[i] \in NLs \/ a \in NLs                   -> TRUE   \* WB3a, WB3b
      [] s[i] = "ZWJ" /\ a \in {"GAZ","EBG"}         -> FALSE  \* WB3c
      [] a \in Ign                                   -> FALSE  \* WB4
      [] b \in AHL /\ a \in AHL                      -> FALSE  \* WB5
      [] b \in AHL /\ a \in MidL /\ n \in AHL        -> FALSE  \* WB6
      [] b2 \in AHL /\ b \in MidL /\ a \in AHL       -> FALSE  \* WB7
      [] b = "HL" /\ a = "SQ"                        -> FALSE  \* WB7a
      [] b = "HL" /\ a = "DQ" /\ n = "HL"            -> FALSE  \* WB7b
      [] b2 = "HL" /\ b = "DQ" /\ a = "HL"           -> FALSE  \* WB7c
      [] b = "NU" /\ a = "NU"                        -> FALSE  \* WB8
      [] b \in AHL /\ a = "NU"                       -> FALSE  \* WB9
      [] b = "NU" /\ a \in AHL                       -> FALSE  \* WB10
      [] b2 = "NU" /\ b \in MidN /\ a = "NU"         -> FALSE  \* WB11
      [] b = "NU" /\ a \in MidN /\ n = "NU"          -> FALSE  \* WB12
      [] b = "KA" /\ a = "KA"                        -> FALSE  \* WB13
      [] b \in AHL \cup {"NU","KA","EX"} /\ a = "EX" -> FALSE  \* WB13a
      [] b = "EX" /\ a \in AHL \cup {"NU","KA"}      -> FALSE  \* WB13b
      [] b \in {"EB","EBG"} /\ a = "EM"              -> FALSE  \* WB14
      [] b = "RI" /\ a = "RI"                        -> RiRun(s, p) % 2 = 0  \* WB15, WB16
      [] OTHER                                       -> TRUE   \* WB999
WBounds(s) ==
    IF s = <<>> THEN <<0>>
    ELSE SelectSeq([k \in 1..(Len(s) + 1) |-> k - 1],
                   LAMBDA i : i = 0 \/ i = Len(s) \/ WBreak(s, i))
=============================================================================
