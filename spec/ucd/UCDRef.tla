------------------------------- MODULE UCDRef -------------------------------
(* The reference: for each property, the runs of code points with one value     *)
(* (ref/props.ndjson), the listed names (ref/names.ndjson), and the values that  *)
(* are derived by rule.  A property is a total function of the scalar values.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Ref == ndJsonDeserialize(IOEnv.UCD_REF \o "/props.ndjson")
RefNames == ndJsonDeserialize(IOEnv.UCD_REF \o "/names.ndjson")
Max == 1114111
IsScalar(c) == c \in 0..55295 \/ c \in 57344..Max
Succ(c) == IF c = 55295 THEN 57344 ELSE c + 1

RefIdx == TLCEval([p \in {Ref[i].p : i \in 1..Len(Ref)} |-> CHOOSE i \in 1..Len(Ref) : Ref[i].p = p])
Runs(p) == Ref[RefIdx[p]].runs
\* last index whose run starts at or before c
RECURSIVE Find(_, _, _, _)
Find(rs, c, a, b) ==       \* rs[a] starts at or before c, rs[b+1] (if any) after c
    IF a = b THEN a
    ELSE LET m == (a + b + 1) \div 2
         IN IF rs[m][1] <= c THEN Find(rs, c, m, b) ELSE Find(rs, c, a, m - 1)
RunAt(p, c) == Find(Runs(p), c, 1, Len(Runs(p)))
ValueAt(p, c) == Runs(p)[RunAt(p, c)][3]

-----------------------------------------------------------------------------
\* Names (chapter 4.8): rules NR1 (Hangul), NR2 (ideographs); NR3 is the list
LNames == <<"G","GG","N","D","DD","R","M","B","BB","S","SS","","J","JJ","C","K","T","P","H">>
VNames == <<"A","AE","YA","YAE","EO","E","YEO","YE","O","WA","WAE","OE","YO","U","WEO","WE","WI","YU","EU","YI","I">>
TNames == <<"","G","GG","GS","N","NJ","NH","D","L","LG","LM","LB","LS","LT","LP","LH","M","B","BS","S","SS","NG","J","C","K","T","P","H">>
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
RECURSIVE HexStr(_)
HexStr(n) == IF n < 16 THEN HexDigit[n + 1] ELSE HexStr(n \div 16) \o HexDigit[(n % 16) + 1]
IsSyllable(c) == c \in 44032..55203
\* <<first, last, prefix>>
Ideographs == <<
  <<13312, 19893, "CJK UNIFIED IDEOGRAPH-">>, <<19968, 40938, "CJK UNIFIED IDEOGRAPH-">>,
  <<63744, 64109, "CJK COMPATIBILITY IDEOGRAPH-">>, <<64112, 64217, "CJK COMPATIBILITY IDEOGRAPH-">>,
  <<94208, 100332, "TANGUT IDEOGRAPH-">>, <<110960, 111355, "NUSHU CHARACTER-">>,
  <<131072, 173782, "CJK UNIFIED IDEOGRAPH-">>, <<173824, 177972, "CJK UNIFIED IDEOGRAPH-">>,
  <<177984, 178205, "CJK UNIFIED IDEOGRAPH-">>, <<178208, 183969, "CJK UNIFIED IDEOGRAPH-">>,
  <<183984, 191456, "CJK UNIFIED IDEOGRAPH-">>, <<194560, 195101, "CJK COMPATIBILITY IDEOGRAPH-">> >>
IdeoIdx(c) == {i \in 1..Len(Ideographs) : c \in Ideographs[i][1]..Ideographs[i][2]}
RECURSIVE FindName(_, _, _)
FindName(c, a, b) ==
    IF a = b THEN a
    ELSE LET m == (a + b + 1) \div 2
         IN IF RefNames[m].c <= c THEN FindName(c, m, b) ELSE FindName(c, a, m - 1)
Listed(c) == RefNames[FindName(c, 1, Len(RefNames))]
NameOf(c) ==
    IF IsSyllable(c) THEN
        LET s == c - 44032
        IN "HANGUL SYLLABLE " \o LNames[(s \div 588) + 1] \o VNames[((s % 588) \div 28) + 1] \o TNames[(s % 28) + 1]
    ELSE IF IdeoIdx(c) # {} THEN Ideographs[CHOOSE i \in IdeoIdx(c) : TRUE][3] \o HexStr(c)
    ELSE IF Listed(c).c = c THEN Listed(c).name ELSE "-"
\* no named character in lo..hi
NoNames(lo, hi) ==
    /\ \A i \in 1..Len(Ideographs) : hi < Ideographs[i][1] \/ lo > Ideographs[i][2]
    /\ hi < 44032 \/ lo > 55203
    /\ LET k == FindName(hi, 1, Len(RefNames)) IN RefNames[k].c < lo \/ RefNames[k].c > hi
=============================================================================
