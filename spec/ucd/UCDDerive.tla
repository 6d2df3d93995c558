------------------------------ MODULE UCDDerive ------------------------------
(* Relations the Unicode Character Database (UAX #44 derivations, stability      *)
(* policies, UAX #29/#31 and UTS #51 definitions) prescribes between properties  *)
(* of one character.  TRACE: one record per maximal range of code points on      *)
(* which all the properties of the implementation are constant.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Block
VARIABLES k
r == T[k]

Letter == {"Lu","Ll","Lt","Lm","Lo"}
Mark == {"Mn","Mc","Me"}
Number == {"Nd","Nl","No"}
In(lo, hi, S) == \E x \in S : lo >= x[1] /\ hi <= x[2]
Out(lo, hi, S) == \A x \in S : hi < x[1] \/ lo > x[2]
\* membership is decided for the whole range, and equals flag
Is(flag, S) == IF flag THEN In(r.lo, r.hi, S) ELSE Out(r.lo, r.hi, S)
One(x) == <<x, x>>
Y(v) == v = "Y"
Expl == {"LRE","RLE","LRO","RLO","PDF","LRI","RLI","FSI","PDI"}

NonChars == {<<64976, 65007>>} \cup {<<65536 * p + 65534, 65536 * p + 65535>> : p \in 0..16}
Private == {<<57344, 63743>>, <<983040, 1048573>>, <<1048576, 1114109>>}
Controls == {<<0, 31>>, <<127, 159>>}
Syllables == {<<44032, 55203>>}
WSpaces == {<<9, 13>>, One(32), One(133), One(160), One(5760), <<8192, 8202>>, <<8232, 8233>>, One(8239),
            One(8287), One(12288)}
PatWS == {<<9, 13>>, One(32), One(133), <<8206, 8207>>, <<8232, 8233>>}
BidiC == {One(1564), <<8206, 8207>>, <<8234, 8238>>, <<8294, 8297>>}
OtherIDStart == {<<6277, 6278>>, One(8472), One(8494), <<12443, 12444>>}
OtherIDContinue == {One(183), One(903), <<4969, 4977>>, One(6618)}
NfkcStart == {One(890), One(3635), One(3763), <<12443, 12444>>, <<64606, 64611>>, <<65018, 65019>>, One(65136),
              One(65138), One(65140), One(65142), One(65144), One(65146), One(65148), One(65150), <<65438, 65439>>}
NfkcContinue == {One(890), <<12443, 12444>>, <<64606, 64611>>, <<65018, 65019>>, One(65136),
              One(65138), One(65140), One(65142), One(65144), One(65146), One(65148), One(65150)}
Modifiers == {<<127995, 127999>>}
RegInd == {<<127462, 127487>>}
JamoL == {<<4352, 4447>>, <<43360, 43388>>}
JamoV == {<<4448, 4519>>, <<55216, 55238>>}
JamoT == {<<4520, 4607>>, <<55243, 55291>>}

IDStart == (r.gc \in Letter \cup {"Nl"} \/ In(r.lo, r.hi, OtherIDStart)) /\ ~Y(r.Pat_Syn) /\ ~Y(r.Pat_WS)
IDContinue == (IDStart \/ r.gc \in {"Mn","Mc","Nd","Pc"} \/ In(r.lo, r.hi, OtherIDContinue))
              /\ ~Y(r.Pat_Syn) /\ ~Y(r.Pat_WS)
GExt == r.GCB = "EX"

First(s) == SubSeq(s, 1, 1)
Rules == <<
  \* assignment
  <<"unassigned characters have no age", (r.age = "-") = (r.gc = "Cn" /\ ~Y(r.nonchar))>>,
  <<"noncharacters", Is(Y(r.nonchar), NonChars) /\ (Y(r.nonchar) => r.gc = "Cn" /\ r.age # "-")>>,
  <<"private use", Is(Y(r.private), Private) /\ (Y(r.private) = (r.gc = "Co"))>>,
  <<"control", Is(Y(r.control), Controls) /\ (Y(r.control) = (r.gc = "Cc"))>>,
  <<"no surrogates", r.gc # "Cs">>,
  <<"assigned characters are in a block", r.age # "-" /\ ~Y(r.nonchar) => r.blk # "-">>,
  <<"names and categories", (r.nmkind # "-") = (r.gc \notin {"Cn","Cc","Co"})>>,
  <<"ideographs are letters", r.nmkind \in {"CJK UNIFIED IDEOGRAPH-","CJK COMPATIBILITY IDEOGRAPH-",
        "TANGUT IDEOGRAPH-","NUSHU CHARACTER-"} => r.gc = "Lo" /\ Y(r.Alpha) /\ r.bc = "L">>,
  <<"compatibility ideographs decompose", r.nmkind = "CJK COMPATIBILITY IDEOGRAPH-" =>
        (r.canon # "-" \/ In(r.lo, r.hi, {<<64014, 64015>>, One(64017), <<64019, 64020>>, One(64031), One(64033),
                                           <<64035, 64036>>, <<64039, 64041>>}))>>,
  \* numbers, letters
  <<"numeric", Y(r.numeric) = (r.gc \in Number)>>,
  <<"alphanumeric", Y(r.alnum) = (Y(r.Alpha) \/ Y(r.numeric))>>,
  <<"alphabetic contains letters", r.gc \in Letter \cup {"Nl"} \/ Y(r.Lower) \/ Y(r.Upper) => Y(r.Alpha)>>,
  <<"alphabetic is letter, mark or symbol", Y(r.Alpha) => r.gc \in Letter \cup Mark \cup {"Nl", "So"}>>,
  \* case
  <<"lowercase", (r.gc = "Ll" => Y(r.Lower)) /\ (Y(r.Lower) => r.gc \in {"Ll","Lm","Lo","Mn","Nl","So"})>>,
  <<"uppercase", (r.gc = "Lu" => Y(r.Upper)) /\ (Y(r.Upper) => r.gc \in {"Lu","Nl","So"})>>,
  <<"not both cases", ~(Y(r.Lower) /\ Y(r.Upper))>>,
  <<"cased", Y(r.Cased) = (Y(r.Lower) \/ Y(r.Upper) \/ r.gc = "Lt")>>,
  <<"case ignorable", Y(r.CI) = (r.gc \in {"Mn","Me","Cf","Lm","Sk"} \/ r.WB \in {"ML","MB","SQ"})>>,
  <<"changes when case mapped", Y(r.CWCM) = (Y(r.CWL) \/ Y(r.CWU) \/ Y(r.CWT))>>,
  <<"only uppercase or titlecase lowercases", Y(r.CWL) => Y(r.Upper) \/ r.gc = "Lt">>,
  <<"only lowercase or titlecase uppercases", Y(r.CWU) => Y(r.Lower) \/ r.gc = "Lt">>,
  <<"titlecasing changes only lowercase (and digraphs)", Y(r.CWT) =>
        Y(r.Lower) \/ In(r.lo, r.hi, {One(452), One(455), One(458), One(497)})>>,
  <<"changing characters are cased", Y(r.CWCM) => Y(r.Cased)>>,
  <<"titlecase letters change in both directions", r.gc = "Lt" => Y(r.CWL) /\ Y(r.CWU) /\ Y(r.CWCF)>>,
  \* white space, identifiers
  <<"white space", Is(Y(r.WSpace), WSpaces) /\ (r.gc \in {"Zs","Zl","Zp"} => Y(r.WSpace))>>,
  <<"pattern white space", Is(Y(r.Pat_WS), PatWS) /\ ~(Y(r.Pat_WS) /\ Y(r.Pat_Syn))>>,
  <<"ID_Start", Y(r.IDS) = IDStart>>,
  <<"ID_Continue", Y(r.IDC) = IDContinue>>,
  <<"XID_Start", Y(r.XIDS) = (Y(r.IDS) /\ ~In(r.lo, r.hi, NfkcStart))>>,
  <<"XID_Continue", Y(r.XIDC) = (Y(r.IDC) /\ ~In(r.lo, r.hi, NfkcContinue))>>,
  \* marks, decomposition
  <<"marks", Y(r.mark) = (r.gc \in Mark)>>,
  <<"only marks are reordered", r.ccc # "0" => r.gc \in Mark /\ r.GCB \in {"EX","SM"}>>,
  <<"canonical decompositions", (r.dt = "Can") = (r.canon # "-" \/ Y(r.syllable))>>,
  <<"compatibility decompositions", (r.dt \notin {"Can","-"}) = (r.compat # "-") /\ ~(r.canon # "-" /\ r.compat # "-")>>,
  <<"ASCII does not decompose", r.lo < 128 => r.dt = "-" /\ r.canon = "-" /\ r.compat = "-">>,
  <<"Hangul syllables", Is(Y(r.syllable), Syllables) /\ (Y(r.syllable) = (r.nmkind = "hangul"))
        /\ (Y(r.syllable) => r.gc = "Lo" /\ r.canon = "-" /\ r.compat = "-")>>,
  \* bidi
  <<"bidi controls", Is(Y(r.Bidi_C), BidiC) /\ (r.bc \in Expl => Y(r.Bidi_C)) /\ (Y(r.Bidi_C) => r.gc = "Cf")>>,
  <<"directions", Y(r.ltr) = (r.bc \in {"L","LRE","LRO","LRI"}) /\ Y(r.rtl) = (r.bc \in {"R","AL","RLE","RLO","RLI"})
        /\ Y(r.explicit) = (r.bc \in Expl)>>,
  <<"nonspacing", r.bc = "NSM" => r.gc \in {"Mn","Me"}>>,
  <<"nonspacing marks", r.gc \in {"Mn","Me"} => r.bc \in {"NSM","L","BN"}>>,
  <<"European numbers", r.bc = "EN" => r.gc \in {"Nd","No"}>>,
  <<"Arabic numbers", r.bc = "AN" => r.gc \in {"Nd","No","Po","Cf"}>>,
  <<"mirrored", Y(r.Bidi_M) => r.bc = "ON" /\ r.gc \in {"Ps","Pe","Pi","Pf","Sm","Po","So"}>>,
  <<"default ignorables are not letters", r.bc = "BN" => r.gc \in {"Cc","Cf","Cn","Lo","Mn"}>>,
  <<"strong right-to-left Arabic", r.bc = "AL" => r.gc \in {"Lo","Lm","Po","So","Sc","Cn","Sk","Pd","Sm","Cf"}>>,
  \* segmentation (UAX #29 tables 2, 3, 4)
  <<"GCB CR LF", (r.GCB = "CR") = (r.lo = 13 /\ r.hi = 13) /\ (r.GCB = "LF") = (r.lo = 10 /\ r.hi = 10)>>,
  <<"GCB Control", (r.gc \in {"Cc","Zl","Zp"} => r.GCB \in {"CN","CR","LF"})
        /\ (r.GCB = "CN" => r.gc \in {"Cc","Cf","Zl","Zp","Cn"})
        /\ (r.gc = "Cf" => r.GCB \in {"CN","PP","EX","ZWJ"})>>,
  <<"GCB Extend", (r.gc \in {"Mn","Me"} => r.GCB = "EX") /\ (r.GCB = "EX" => r.gc \in Mark \/ r.lo = 8204 \/ (r.lo >= 65438 /\ r.hi <= 65439) \/ r.gc = "Cf")>>,
  <<"GCB SpacingMark", (r.GCB = "SM" => r.gc = "Mc" \/ r.lo = 3635 \/ r.lo = 3763)>>,
  <<"GCB ZWJ", (r.GCB = "ZWJ") = (r.lo = 8205 /\ r.hi = 8205) /\ (r.WB = "ZWJ") = (r.GCB = "ZWJ")>>,
  <<"GCB Regional_Indicator", Is(r.GCB = "RI", RegInd) /\ (r.WB = "RI") = (r.GCB = "RI")>>,
  <<"GCB Hangul jamo", Is(r.GCB = "L", JamoL) /\ Is(r.GCB = "V", JamoV) /\ Is(r.GCB = "T", JamoT)>>,
  <<"GCB Hangul syllables", (r.GCB \in {"LV","LVT"}) = Y(r.syllable)
        /\ (r.GCB = "LV" => r.lo = r.hi /\ (r.lo - 44032) % 28 = 0)
        /\ (r.GCB = "LVT" => (r.lo - 44032) % 28 # 0 /\ (r.lo - 44032) \div 28 = (r.hi - 44032) \div 28)>>,
  <<"emoji bases", (r.GCB \in {"EB","EBG"}) = Y(r.EBase) /\ Is(r.GCB = "EBG", {<<128102, 128105>>})>>,
  <<"emoji modifiers", Is(Y(r.EMod), Modifiers) /\ (r.GCB = "EM") = Y(r.EMod)>>,
  <<"emoji subsets", (Y(r.EPres) \/ Y(r.EMod) \/ Y(r.EBase) => Y(r.Emoji)) /\ (r.GCB = "GAZ" => Y(r.Emoji))>>,
  <<"emoji components", Y(r.EComp) => Y(r.Emoji)>>,
  <<"WB and GCB emoji classes", \A x \in {"EB","EBG","EM","GAZ"} : (r.WB = x) = (r.GCB = x)>>,
  <<"WB CR LF Newline", (r.WB = "CR") = (r.GCB = "CR") /\ (r.WB = "LF") = (r.GCB = "LF")
        /\ Is(r.WB = "NL", {<<11, 12>>, One(133), <<8232, 8233>>})>>,
  <<"WB Extend", (r.WB = "Extend") = (GExt \/ r.gc = "Mc")>>,
  <<"WB Format", (r.WB = "FO" => r.gc = "Cf") /\ (r.gc = "Cf" => r.WB \in {"FO","XX","Extend","ZWJ","LE"})>>,
  <<"WB letters", r.WB \in {"LE","HL"} => Y(r.Alpha) \/ r.gc \in {"Lm","Sk","Po"} \/ r.lo = 1523>>,
  <<"WB ExtendNumLet", r.WB = "EX" => r.gc = "Pc" \/ r.gc = "Zs">>,
  <<"WB Hebrew letters", r.WB = "HL" => r.gc = "Lo" /\ r.bc = "R">>,
  <<"SB line ends", (r.SB = "CR") = (r.GCB = "CR") /\ (r.SB = "LF") = (r.GCB = "LF")
        /\ Is(r.SB = "SE", {One(133), <<8232, 8233>>})>>,
  <<"SB Extend", (r.SB = "Extend") = (GExt \/ r.gc = "Mc" \/ r.GCB = "ZWJ")>>,
  <<"SB Lower Upper", (r.SB = "LO") = (Y(r.Lower) /\ ~GExt) /\ (r.SB = "UP") = (Y(r.Upper) \/ r.gc = "Lt")>>,
  <<"SB other letters", r.SB = "LE" => (Y(r.Alpha) \/ r.lo \in {160, 1523}) /\ ~Y(r.Lower) /\ ~Y(r.Upper)>>,
  <<"SB spaces", r.SB = "SP" => Y(r.WSpace)>>,
  \* IDNA
  <<"IDNA unassigned and private", r.gc \in {"Co","Cn"} => r.idna \in {"X","I"}>>,
  <<"IDNA valid characters are stable", r.idna \in {"V","3V"} => ~Y(r.CWCF)>>,
  <<"IDNA valid characters have no compatibility form", r.idna \in {"V","3V"} => r.compat = "-">>,
  <<"IDNA mapped characters change under NFKC case folding", First(r.idna) = "M" =>
        Y(r.CWCF) \/ r.canon # "-" \/ r.compat # "-" \/ r.lo = 12290>>,
  <<"IDNA deviations", Is(First(r.idna) = "D", {One(223), One(962), <<8204, 8205>>})>>,
  <<"IDNA marks cannot be uppercase", Y(r.CWCF) => r.idna \notin {"V","3V"}>>,
  <<"IDNA ASCII", r.lo < 128 => (r.idna = "V") = (In(r.lo, r.hi, {<<45, 46>>, <<48, 57>>, <<97, 122>>}))>>,
  <<"IDNA ignored", r.idna = "I" => r.gc \in {"Cf","Mn","Lo","Cn"}>>
>>
Check == \A i \in 1..Len(Rules) :
    IF Rules[i][2] THEN TRUE
    ELSE PrintT(ToString(<<"MISMATCH", "T04", k, Rules[i][1]>>))
Init == k \in {1 + Block * b : b \in 0..((Len(T) - 1) \div Block)}
Next == k % Block # 0 /\ k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
