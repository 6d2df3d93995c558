------------------------------ MODULE MCNormal ------------------------------
(* Texts grow by one character; every text is normalized.                        *)
EXTENDS Normal
CONSTANTS Alphabet, MaxLen, EmitOn
VARIABLES s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Ordered(t) == \A i \in 2..Len(t) : Ccc(t[i]) = 0 \/ Ccc(t[i-1]) <= Ccc(t[i])
\* the guarantees users rely on, on the specification
Sound == LET d == NFD(s)  kd == NFKD(s)  c == NFC(s)  kc == NFKC(s) IN
    /\ NFD(d) = d /\ NFC(c) = c /\ NFKD(kd) = kd /\ NFKC(kc) = kc
    /\ NFC(d) = c /\ NFD(c) = d /\ NFKC(kd) = kc /\ NFKD(kc) = kd
    /\ NFKD(d) = kd /\ NFKC(c) = kc /\ NFKD(c) = kd
    /\ Ordered(d) /\ Ordered(c) /\ Ordered(kd) /\ Ordered(kc)
EmitAll == EmitOn => PrintT(ToString(<<s, NFD(s), NFKD(s), NFC(s), NFKC(s)>>))
=============================================================================
