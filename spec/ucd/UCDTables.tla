------------------------------ MODULE UCDTables ------------------------------
(* The property tables of the implementation, read off the code as maximal runs *)
(* (TRACE: one record per property), against the reference, one block of runs    *)
(* per state.  Each run must continue the previous one and every code point in   *)
(* it must have the value the reference (or the derivation) gives it.            *)
EXTENDS UCDRef
Impl == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Block
VARIABLES i, k
vars == <<i, k>>

\* properties the code computes from another one
Base(p) == CASE p = "age_trait" -> "age"
             [] p = "dt_compat" -> "dt"
             [] p \in {"bc_trait", "ltr", "rtl", "explicit"} -> "bc"
             [] OTHER -> p
YN(b) == IF b THEN "Y" ELSE "N"
Map(p, v) == CASE p = "ltr" -> YN(v \in {"L", "LRE", "LRO", "LRI"})
               [] p = "rtl" -> YN(v \in {"R", "AL", "RLE", "RLO", "RLI"})
               [] p = "explicit" -> YN(v \in {"LRE","LRO","RLE","RLO","PDF","LRI","RLI","FSI","PDI"})
               [] p = "dt_compat" -> IF v = "Can" THEN "-" ELSE v
               [] OTHER -> v

\* names that UnicodeData.txt lists character by character though they follow a rule
Written == {w \in 1..Len(Ideographs) : Ideographs[w][3] \in {"CJK COMPATIBILITY IDEOGRAPH-", "NUSHU CHARACTER-"}}
Value(p, r) ==
    IF p = "listed" /\ r[3] = "-" THEN
        /\ \A w \in Written : r[2] < Ideographs[w][1] \/ r[1] > Ideographs[w][2]
        /\ LET n == FindName(r[2], 1, Len(RefNames)) IN RefNames[n].c < r[1] \/ RefNames[n].c > r[2]
    ELSE IF p \in {"name", "listed"} THEN
        IF r[3] = "-" THEN NoNames(r[1], r[2]) ELSE \A c \in r[1]..r[2] : NameOf(c) = r[3]
    ELSE LET rs == Runs(Base(p))
             a == Find(rs, r[1], 1, Len(rs))
             b == Find(rs, r[2], 1, Len(rs))
         IN \A j \in a..b : Map(p, rs[j][3]) = r[3]
Joined(rs, j) ==
    /\ rs[j][1] <= rs[j][2] /\ IsScalar(rs[j][1]) /\ IsScalar(rs[j][2])
    /\ ~(rs[j][1] < 55296 /\ rs[j][2] > 57343)
    /\ IF j = 1 THEN rs[j][1] = 0 ELSE rs[j][1] = Succ(rs[j-1][2])
    /\ j = Len(rs) => rs[j][2] = Max
Blocks(n) == (n + Block - 1) \div Block
Init == i \in 1..Len(Impl) /\ k = 1
\* walk the runs of one property
Next == k < Blocks(Len(Impl[i].runs)) /\ k' = k + 1 /\ i' = i
Spec == Init /\ [][Next]_vars

Hi(n) == IF k * Block < n THEN k * Block ELSE n
Agrees ==
    LET p == Impl[i].p
        rs == Impl[i].runs
    IN \A j \in ((k-1) * Block + 1)..Hi(Len(rs)) :
         IF Joined(rs, j) /\ Value(p, rs[j]) THEN TRUE
         ELSE PrintT(ToString(<<"MISMATCH", p, j, <<rs[j][1], rs[j][2], rs[j][3],
                IF p \in {"name", "listed"} THEN NameOf(rs[j][1]) ELSE Map(p, ValueAt(Base(p), rs[j][1]))>> >>))
=============================================================================
