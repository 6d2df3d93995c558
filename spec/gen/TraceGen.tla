------------------------------ MODULE TraceGen ------------------------------
(* Recorded runs of the table generator, validated.  A record: d the data set,   *)
(* args the components asked for, dirs the directories found regenerated         *)
(* (everything in them new), out the tables: name |-> list of <<lo, hi, value>>   *)
(* (characters to values) or list of texts.                                      *)
EXTENDS UCDFiles, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Block
VARIABLES k
r == T[k]
Denoted(t) == UNION {{<<c, t[i][3]>> : c \in Scalars(t[i][1], t[i][2])} : i \in 1..Len(t)}
Ordered(t) == \A i \in 1..Len(t) : t[i][1] <= t[i][2] /\ (i > 1 => t[i - 1][2] < t[i][1])
Maximal(t) == \A i \in 2..Len(t) : ~(t[i - 1][3] = t[i][3] /\ t[i - 1][2] + 1 = t[i][1])
Single(t) == \A i \in 1..Len(t) : t[i][1] = t[i][2]
Dir(n) == SubSeq(n, 1, (CHOOSE i \in 1..Len(n) : SubSeq(n, i, i) = "/") - 1)
Bad == LET on == Chosen(ToSet(r.args))
           R == RangeTables(r.d)
           D == DirectTables(r.d)
           L == Lists(r.d)
           Exp(F) == {n \in DOMAIN F : Dir(n) \in on}
           got == DOMAIN r.out
       IN (IF ToSet(r.dirs) # on THEN {"dirs"} ELSE {})
          \cup {n \in Exp(R) \cup Exp(D) \cup Exp(L) : n \notin got}
          \cup {n \in Exp(R) \cap got : ~(Ordered(r.out[n]) /\ Maximal(r.out[n]) /\ Denoted(r.out[n]) = R[n])}
          \cup {n \in Exp(D) \cap got : ~(Ordered(r.out[n]) /\ Single(r.out[n]) /\ Denoted(r.out[n]) = D[n])}
          \cup {n \in Exp(L) \cap got : r.out[n] # L[n]}
Check == LET b == Bad IN IF b = {} THEN TRUE ELSE PrintT(ToString(<<"MISMATCH", "X01", k, b>>))
Init == k \in {1 + Block * b : b \in 0..((Len(T) - 1) \div Block)}
Next == k % Block # 0 /\ k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
