------------------------------ MODULE UCDNames ------------------------------
(* Names are unique and ordered as their texts.  TRACE: the named characters as  *)
(* the implementation sorts them, in pieces that overlap by one element, with    *)
(* the length it reports for each name.                                          *)
EXTENDS UCDRef
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
r == T[k]
Ascii == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0","1","2","3","4","5","6","7","8","9", ":", ";", "<", "=", ">", "?", "@",
  "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z" >>
Code == TLCEval([s \in {Ascii[i] : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : Ascii[i] = s])
\* strictly before, character by character; a proper prefix comes first
RECURSIVE Less(_, _, _)
Less(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE LET x == SubSeq(a, i, i)
             y == SubSeq(b, i, i)
         IN IF x = y THEN Less(a, b, i + 1) ELSE Code[x] < Code[y]
Bad == {i \in 1..Len(r.cs) :
          LET n == NameOf(r.cs[i]) IN
          \/ n = "-" \/ Len(n) # r.len[i]
          \/ i > 1 /\ ~Less(NameOf(r.cs[i - 1]), n, 1)}
Linked == k = 1 \/ T[k - 1].cs[Len(T[k - 1].cs)] = r.cs[1]
Check == IF Linked /\ Bad = {} THEN TRUE
         ELSE PrintT(ToString(<<"MISMATCH", "T06", k,
                LET i == IF Bad = {} THEN 1 ELSE CHOOSE i \in Bad : \A j \in Bad : i <= j
                IN <<r.cs[i], r.len[i], NameOf(r.cs[i]), IF i > 1 THEN NameOf(r.cs[i - 1]) ELSE "">> >>))
Init == k \in 1..Len(T)
Next == FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_k
=============================================================================
