------------------------------ MODULE UCDOrder ------------------------------
(* Ages are ordered by time: the greater age is the earlier version.  Blocks are *)
(* disjoint, ascending, and the block of a character is the one containing it.   *)
EXTENDS UCDRef
T == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Block
VARIABLES k
r == T[k]

Earlier(a, b) == \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ a[2] < b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Cmp(a, b) == IF a = b THEN 0 ELSE IF Earlier(a, b) THEN 1 ELSE -1
B(x) == IF x THEN 1 ELSE 0
Older(a, b) == IF Earlier(a, b) THEN a ELSE b
Younger(a, b) == IF Earlier(a, b) THEN b ELSE a
Pair == LET c == Cmp(r.a, r.b) IN
    /\ r.cmp = c /\ r.partial = c
    /\ r.ops = <<B(c < 0), B(c <= 0), B(c > 0), B(c >= 0), B(c = 0), B(c # 0)>>
    /\ r.max = Older(r.a, r.b) /\ r.min = Younger(r.a, r.b)
    /\ r.a = r.b => r.hash = 1
Decreasing(s) == \A i \in 1..(Len(s) - 1) : Earlier(s[i + 1], s[i])
Sorted == /\ Len(r.ages) > 15
          /\ Decreasing(r.ages) /\ r.set = r.ages
          /\ r.max = r.ages[Len(r.ages)] /\ r.min = r.ages[1]
Blocks == LET it == r.iter IN
    /\ r.again = 1 /\ Len(it) > 200
    /\ \A i \in 1..Len(it) : it[i][1] <= it[i][2] /\ (i > 1 => it[i - 1][2] < it[i][1])
    /\ Cardinality({it[i][3] : i \in 1..Len(it)}) = Len(it)
Iter == T[CHOOSE i \in 1..Len(T) : T[i].kind = "blocks"].iter
\* the characters lo..hi report block b (name "-": none)
OfOk == IF r.block[3] = "-" THEN \A i \in 1..Len(Iter) : Iter[i][2] < r.lo \/ Iter[i][1] > r.hi
        ELSE /\ \E i \in 1..Len(Iter) : Iter[i] = r.block
             /\ r.block[1] = r.lo /\ r.block[2] = r.hi
Ok == CASE r.kind = "pair" -> Pair
        [] r.kind = "sorted" -> Sorted
        [] r.kind = "blocks" -> Blocks
        [] r.kind = "of" -> OfOk
Check == IF Ok THEN TRUE ELSE PrintT(ToString(<<"MISMATCH", "T05", k>>))
Init == k \in {1 + Block * b : b \in 0..((Len(T) - 1) \div Block)}
Next == k % Block # 0 /\ k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k

\* the order itself: total, antisymmetric, transitive (design check on the versions of the reference)
V == {<<x, y, 0>> : x \in 1..3, y \in 0..2} \cup {<<1, 1, 1>>}
ASSUME \A a, b, c \in V : Cmp(a, b) = -Cmp(b, a) /\ (Cmp(a, b) > 0 /\ Cmp(b, c) > 0 => Cmp(a, c) > 0)
=============================================================================
