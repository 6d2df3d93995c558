------------------------------- MODULE Normal -------------------------------
(* Unicode normalization forms (chapter 3.11, UAX #15), over code points.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
RefN == ndJsonDeserialize(IOEnv.UCD_REF \o "/normal.ndjson")
DecMap == RefN[2].map          \* <<c, 1 canonical / 2 compatibility, mapping>>, ascending
\* two-stage tables over blocks of 256 code points below 30000 (hexadecimal)
CccIndex == RefN[1].index  CccPages == RefN[1].pages
DecIndex == RefN[2].index  DecPages == RefN[2].pages
Ccc(c) == IF c < 768 \/ c >= 196608 THEN 0 ELSE CccPages[CccIndex[(c \div 256) + 1]][(c % 256) + 1]
DecIdx(c) == IF c < 160 \/ c >= 196608 THEN 0 ELSE DecPages[DecIndex[(c \div 256) + 1]][(c % 256) + 1]
Starter(c) == Ccc(c) = 0

\* Hangul
SBase == 44032  LBase == 4352  VBase == 4449  TBase == 4519
IsSyl(c) == c \in SBase..(SBase + 11171)
SylDec(c) == LET s == c - SBase
                 t == s % 28
             IN <<LBase + s \div 588, VBase + (s % 588) \div 28>> \o (IF t = 0 THEN <<>> ELSE <<TBase + t>>)

\* full decomposition (k: compatibility)
RECURSIVE Dec(_, _)
Dec(c, k) == IF IsSyl(c) THEN SylDec(c)
             ELSE LET i == DecIdx(c) IN
                  IF i = 0 \/ (DecMap[i][2] = 2 /\ ~k) THEN <<c>> ELSE FoldLeft(LAMBDA o, x : o \o Dec(x, k), <<>>, DecMap[i][3])
DecStr(s, k) == FoldLeft(LAMBDA o, x : o \o Dec(x, k), <<>>, s)

\* canonical ordering: insert each character after everything of lower or equal class, back to a starter
RECURSIVE Place(_, _, _)
Place(o, c, i) == \* the position after which c goes
    IF i = 0 \/ Ccc(o[i]) = 0 \/ Ccc(o[i]) <= Ccc(c) THEN i ELSE Place(o, c, i - 1)
Insert(o, c) == LET i == IF Ccc(c) = 0 THEN Len(o) ELSE Place(o, c, Len(o))
                IN SubSeq(o, 1, i) \o <<c>> \o SubSeq(o, i + 1, Len(o))
Order(s) == FoldLeft(Insert, <<>>, s)

\* composition
Excluded == (2392..2399) \cup {2524,2525,2527,2611,2614,2649,2650,2651,2654,2908,2909}
    \cup {3907,3917,3922,3927,3932,3945,3958,3960,3987,3997,4002,4007,4012,4025}
    \cup {64285,64287} \cup (64298..64310) \cup (64312..64316) \cup {64318,64320,64321,64323,64324} \cup (64326..64334)
    \cup {10972} \cup (119134..119140) \cup (119227..119232)
Primary(i) == LET d == DecMap[i] IN
    /\ d[2] = 1 /\ Len(d[3]) = 2
    /\ Ccc(d[1]) = 0 /\ Ccc(d[3][1]) = 0
    /\ d[1] \notin Excluded
PrimaryIdx == TLCEval({i \in 1..Len(DecMap) : Primary(i)})
Firsts == TLCEval({DecMap[i][3][1] : i \in PrimaryIdx})
CompTab == TLCEval([a \in Firsts |-> {<<DecMap[i][3][2], DecMap[i][1]>> : i \in {j \in PrimaryIdx : DecMap[j][3][1] = a}}])
Composite(a, b) ==      \* -1: none
    IF a \in LBase..(LBase+18) /\ b \in VBase..(VBase+20) THEN SBase + (a - LBase) * 588 + (b - VBase) * 28
    ELSE IF IsSyl(a) /\ (a - SBase) % 28 = 0 /\ b \in (TBase+1)..(TBase+27) THEN a + (b - TBase)
    ELSE IF a \notin Firsts THEN -1
    ELSE LET m == {e \in CompTab[a] : e[1] = b} IN IF m = {} THEN -1 ELSE (CHOOSE e \in m : TRUE)[2]
\* last starter before the end of o, 0 if none
RECURSIVE LastStarter(_, _)
LastStarter(o, i) == IF i = 0 THEN 0 ELSE IF Ccc(o[i]) = 0 THEN i ELSE LastStarter(o, i - 1)
Blocked(o, l, c) == \E i \in (l + 1)..Len(o) : Ccc(o[i]) = 0 \/ Ccc(o[i]) >= Ccc(c)
Combine(o, c) ==
    LET l == LastStarter(o, Len(o))
        r == IF l = 0 THEN -1 ELSE IF Blocked(o, l, c) THEN -1 ELSE Composite(o[l], c)
    IN IF r = -1 THEN Append(o, c) ELSE [o EXCEPT ![l] = r]
Comp(s) == FoldLeft(Combine, <<>>, s)

NFD(s) == Order(DecStr(s, FALSE))
NFKD(s) == Order(DecStr(s, TRUE))
NFC(s) == Comp(NFD(s))
NFKC(s) == Comp(NFKD(s))
=============================================================================
