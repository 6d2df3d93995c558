----------------------------- MODULE TraceNormal -----------------------------
(* Recorded normalizations, single characters and compositions, validated.       *)
EXTENDS Normal
T == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE NFind(_, _, _, _)
NFind(rs, c, a, b) == IF a = b THEN a
    ELSE LET m == (a + b + 1) \div 2 IN IF rs[m][1] <= c THEN NFind(rs, c, m, b) ELSE NFind(rs, c, a, m - 1)
CONSTANT Block
VARIABLES k
r == T[k]
Text == <<r.nfd = NFD(r.s), r.nfkd = NFKD(r.s), r.nfc = NFC(r.s), r.nfkc = NFKC(r.s), r.again = 1>>
\* no character of lo..hi changes under any form
Inert == /\ r.hi < SBase \/ r.lo > SBase + 11171
         /\ LET i == NFind(DecMap, r.hi, 1, Len(DecMap)) IN DecMap[i][1] < r.lo \/ DecMap[i][1] > r.hi
\* no character of lo..hi has a class, decomposes, or composes with anything before or after it:
\* in any text all of them are treated alike
Seconds == TLCEval(UNION {{e[1] : e \in CompTab[a]} : a \in Firsts})
Plain == /\ Inert
         /\ {x \in Firsts \cup Seconds : r.lo <= x /\ x <= r.hi} = {}
         /\ r.hi < LBase \/ r.lo > TBase + 27
         /\ \A b \in 0..(Len(CccIndex) - 1) :
              LET lo == 256 * b  IN
              r.hi < lo \/ r.lo > lo + 255 \/ \A x \in lo..(lo + 255) : x < r.lo \/ x > r.hi \/ Ccc(x) = 0
\* r.cs: <<second, composite>> of every composition starting with a
Comps == LET want == {<<b, Composite(r.a, b)>> :
                      b \in (IF r.a \in Firsts THEN {e[1] : e \in CompTab[r.a]} ELSE {})
                            \cup (IF r.a \in LBase..(LBase+18) THEN VBase..(VBase+20) ELSE {})
                            \cup (IF IsSyl(r.a) /\ (r.a - SBase) % 28 = 0 THEN (TBase+1)..(TBase+27) ELSE {})}
         IN {r.cs[i] : i \in 1..Len(r.cs)} = want /\ want # {}
\* all the characters that compose with something, in order
Starts == r.starts = Cardinality(Firsts) + 19 + 399
Syl == /\ r.dec = SylDec(r.c) /\ r.back = r.c
Bad == CASE r.kind = "text" -> {i \in 1..5 : ~Text[i]}
         [] r.kind = "inert" -> IF Inert THEN {} ELSE {0}
         [] r.kind = "plain" -> IF Plain THEN {} ELSE {0}
         [] r.kind = "comps" -> IF Comps THEN {} ELSE {0}
         [] r.kind = "starts" -> IF Starts THEN {} ELSE {0}
         [] r.kind = "syl" -> IF Syl THEN {} ELSE {0}
         [] r.kind = "rnd" -> IF r.got = Composite(r.a, r.b) THEN {} ELSE {0}
Which == IF r.kind = "text" THEN (IF Bad \cap {1, 2, 5} # {} THEN "N01" ELSE "N02")
         ELSE IF r.kind \in {"inert", "plain"} THEN "N01"
         ELSE IF r.kind = "syl" THEN "N03" ELSE "N02"
Check == IF Bad = {} THEN TRUE
         ELSE /\ (r.kind = "text" /\ Bad \cap {1,2,5} # {} => PrintT(ToString(<<"MISMATCH", "N01", k, Bad>>)))
              /\ (r.kind = "text" /\ Bad \cap {3,4,5} # {} => PrintT(ToString(<<"MISMATCH", "N02", k, Bad, NFC(r.s)>>)))
              /\ (r.kind \in {"inert", "plain"} => PrintT(ToString(<<"MISMATCH", "N01", k, Bad>>)))
              /\ (r.kind \in {"comps", "starts", "rnd"} => PrintT(ToString(<<"MISMATCH", "N02", k, Bad>>)))
              /\ (r.kind = "syl" \/ (r.kind \in {"comps", "rnd"} /\ (IsSyl(r.a) \/ r.a \in LBase..(LBase + 255)))
                    => PrintT(ToString(<<"MISMATCH", "N03", k, Bad>>)))
Init == k \in {1 + Block * b : b \in 0..((Len(T) - 1) \div Block)}
Next == k % Block # 0 /\ k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
