------------------------------ MODULE CharTable ------------------------------
(* A property table: entries (range, value), ascending and disjoint, built by    *)
(* appending.  It is read as a partial function from positions to values; the    *)
(* code finds entries by bisection on the order of a range against a character.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* positions 1..N (concretised as characters by the driver)
          Values, MaxLen, Direct, EmitOn
VARIABLES t
Append1(lo, hi, v) == t' = Append(t, <<lo, hi, v>>)
End == IF t = <<>> THEN 0 ELSE t[Len(t)][2]
Init == t = <<>>
Next == /\ Len(t) < MaxLen
        /\ \E lo \in (End + 1)..N, v \in Values :
             \E hi \in (IF Direct THEN {lo} ELSE lo..N) : Append1(lo, hi, v)
Spec == Init /\ [][Next]_t

Entry(c) == {i \in 1..Len(t) : t[i][1] <= c /\ c <= t[i][2]}
Lookup(c) == IF Entry(c) = {} THEN 0 ELSE CHOOSE i \in Entry(c) : TRUE

\* bisection: any order of probing ends at the entry, because the comparison of the entries with
\* a character is first "before", then at most one "at", then "after"
Cmp(i, c) == IF t[i][2] < c THEN -1 ELSE IF t[i][1] > c THEN 1 ELSE 0
RECURSIVE Bisect(_, _, _)
Bisect(c, lo, n) ==      \* n entries from lo on
    IF n = 0 THEN 0
    ELSE LET m == lo + n \div 2
         IN CASE Cmp(m, c) = 0 -> m
              [] Cmp(m, c) = -1 -> Bisect(c, m + 1, lo + n - m - 1)
              [] OTHER -> Bisect(c, lo, m - lo)
WellFormed == \A i \in 1..Len(t) : t[i][1] <= t[i][2] /\ (i > 1 => t[i-1][2] < t[i][1])
Function == \A c \in 0..(N + 1) :
    /\ Cardinality(Entry(c)) <= 1
    /\ Bisect(c, 1, Len(t)) = Lookup(c)
    /\ \A i, j \in 1..Len(t) : i < j => Cmp(i, c) <= Cmp(j, c)
\* expected: for each position the number of its entry (0: none)
EmitAll == EmitOn => PrintT(ToString(<<IF Direct THEN 1 ELSE 0, t, [c \in 1..N |-> Lookup(c)]>>))
=============================================================================
