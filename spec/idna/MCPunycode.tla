----------------------------- MODULE MCPunycode -----------------------------
(* Encoded forms, or texts, grow by one code point.                              *)
EXTENDS Punycode, TLC
CONSTANTS Alphabet, Which, MaxLen, Decoding, EmitOn
VARIABLES s, n
\* where to start: nothing; after a basic part; after a first non-basic code point; long basic parts
A(k) == [i \in 1..k |-> 97]
Starts == << {<<>>}, {<<97, 45>>, <<97, 45, 97, 45>>, <<45>>, <<45, 45>>},
             {<<116, 100, 97>>, <<118, 57, 104>>, <<97, 45, 51, 100, 97>>, <<52, 100, 98>>}, {A(57), A(58), A(120) \o <<45>>},
             {<<>>, <<97>>, A(20), A(60), <<1114111>>} >>
Init == s \in Starts[Which] /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_<<s, n>>
D == Decode(s)
\* what decodes is made of ASCII and digits, keeps its basic code points, and encodes back to the
\* same digits when the encoded form is the canonical one
SoundD == D[1] => LET e == Encode(D[2]) IN
    /\ IsAscii(s) /\ \A i \in 1..Len(D[2]) : IsScalar(D[2][i])
    /\ Decode(e) = D
    /\ Len(D[2]) <= Len(s)
SoundE == LET e == Encode(s) IN IsAscii(e) /\ Decode(e) = <<TRUE, s>>
Sound == IF Decoding THEN SoundD ELSE SoundE
EmitAll == EmitOn => PrintT(ToString(IF Decoding THEN <<0, s, D[1], D[2]>> ELSE <<1, s, TRUE, Encode(s)>>))
=============================================================================
