------------------------------ MODULE TraceIdna ------------------------------
(* Recorded conversions, encodings and decodings, and all single characters in   *)
(* five contexts, validated.                                                     *)
EXTENDS Idna
T == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Block
VARIABLES k
r == T[k]
\* "dom": s, r: the ten results as <<1 ok / 0, text>>
AsNum(x) == <<IF x[1] THEN 1 ELSE 0, x[2]>>
Dom == LET w == Results(r.s) IN {i \in 1..10 : AsNum(w[i]) # r.r[i]}
\* "enc"/"dec": s, ok, t
Enc == IF r.ok = 1 /\ r.t = Encode(r.s) THEN {} ELSE {0}
Dec1 == LET d == Decode(r.s) IN IF AsNum(d) = <<r.ok, r.t>> THEN {} ELSE {0}
\* "enc3": for the characters lo.., three texts each
Succ(c) == IF c = 55295 THEN 57344 ELSE IF c = MaxCP THEN 128 ELSE c + 1
Text3(c, i) == IF i = 1 THEN <<c, 97, Succ(c)>> ELSE IF i = 2 THEN <<Succ(c), r.other, c, c>> ELSE <<c>>
Enc3 == {j \in 1..Len(r.t) : r.t[j] # Encode(Text3(r.lo + (j - 1) \div 3, ((j - 1) % 3) + 1))}
\* "single": the characters lo..hi stand for themselves in every context, with the same outcomes
Ctx(c) == << <<c>>, <<97, c>>, <<1488, c>>, <<c, Dot, 1488>>, Prefix \o Encode(<<c>>) >>
Class(c) == <<At(IdnaIndex, IdnaPages, c), Bc(c), IsMark(c), Ccc(c), DecIdx(c), IsSyl(c)>>
Plain(c, i) == IF i = 5 THEN <<c>> ELSE Ctx(c)[i]
SingleBad(c) == {i \in 1..5 :
    LET w == Results(Ctx(c)[i])  p == Plain(c, i)  ls == Split(p)
        a == Join([j \in 1..Len(ls) |-> EncodeLabel(ls[j])])
    IN \E j \in 1..10 : AsNum(w[j]) # <<r.sig[i][j], IF j <= 2 THEN p ELSE IF r.sig[i][j] = 1 THEN a ELSE <<>>>>}
Single == LET classes == {Class(c) : c \in r.lo..r.hi}
              reps == {r.lo, r.hi} \cup {CHOOSE c \in r.lo..r.hi : Class(c) = q : q \in classes}
          IN UNION {SingleBad(c) : c \in reps}
Bad == CASE r.kind = "dom" -> Dom
         [] r.kind = "enc" -> Enc
         [] r.kind = "dec" -> Dec1
         [] r.kind = "enc3" -> Enc3
         [] r.kind = "single" -> Single
Check == LET b == Bad IN
         IF b = {} THEN TRUE
         ELSE /\ (r.kind = "dom" => PrintT(ToString(<<"MISMATCH", "D01", k, b>>)))
              /\ (r.kind = "dom" /\ b \cap (3..10) # {} => PrintT(ToString(<<"MISMATCH", "D02", k, b>>)))
              /\ (r.kind = "single" => PrintT(ToString(<<"MISMATCH", "D01", k, b>>)) /\ PrintT(ToString(<<"MISMATCH", "D02", k, b>>)))
              /\ (r.kind \in {"enc", "dec", "enc3"} => PrintT(ToString(<<"MISMATCH", "D03", k, b>>)))
Init == k \in {1 + Block * b : b \in 0..((Len(T) - 1) \div Block)}
Next == k % Block # 0 /\ k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
