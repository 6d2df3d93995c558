------------------------------ MODULE CharRange ------------------------------
(* A range of characters and its double-ended iterator.                          *)
(*                                                                               *)
(* Abstract state: the interval a..b of ranks still to be yielded (rank = index  *)
(* of a scalar value among the scalar values, so the surrogate gap does not      *)
(* exist).  Design state: the pair (low, high) of scalar values of the           *)
(* implementation, where stepping past either end of the code space empties the  *)
(* range by moving the other bound.  Refines says the design represents the      *)
(* abstract state; SetView that intervals of ranks are the sets of scalar values *)
(* the bounds denote (checked on a small code space).                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxCP, GapLo, GapHi,   \* code points 0..MaxCP, surrogates GapLo..GapHi
          Bounds,                \* scalar values used as bounds and probes
          Kinds, Ops, Steps, EmitOn
VARIABLES kind, x, y, a, b, low, high, hist
vars == <<kind, x, y, a, b, low, high, hist>>

Gap == GapHi - GapLo + 1
Scalar == (0..MaxCP) \ (GapLo..GapHi)
Rank(c) == IF c > GapHi THEN c - Gap ELSE c
Char(r) == IF r >= GapLo THEN r + Gap ELSE r
MaxRank == MaxCP - Gap
Max2(p, q) == IF p > q THEN p ELSE q
Min2(p, q) == IF p < q THEN p ELSE q

\* start bound x 10 + stop bound: 0 unbounded, 1 included, 2 excluded; 99 is "all", 98 the
\* planes 0 to 2
From(k, c) == CASE k \div 10 = 0 -> 0 [] k \div 10 = 1 -> Rank(c) [] OTHER -> Rank(c) + 1
To(k, c) == CASE k % 10 = 0 -> MaxRank [] k % 10 = 1 -> Rank(c) [] OTHER -> Rank(c) - 1
Denotes(k, p, q) == IF k = 99 THEN <<0, MaxRank>> ELSE IF k = 98 THEN <<0, Rank(196607)>> ELSE <<From(k, p), To(k, q)>>

Size(i, j) == IF i > j THEN 0 ELSE j - i + 1

\* design: stepping on scalar values
Succ(c) == IF c = GapLo - 1 THEN GapHi + 1 ELSE c + 1
Pred(c) == IF c = GapHi + 1 THEN GapLo - 1 ELSE c - 1
StepF(p) == IF p[1] > p[2] THEN p ELSE IF p[1] = MaxCP THEN <<p[1], 0>> ELSE <<Succ(p[1]), p[2]>>
StepB(p) == IF p[1] > p[2] THEN p ELSE IF p[2] = 0 THEN <<MaxCP, p[2]>> ELSE <<p[1], Pred(p[2])>>
RECURSIVE Iter(_, _, _)
Iter(p, n, front) == IF n = 0 THEN p ELSE Iter(IF front THEN StepF(p) ELSE StepB(p), n - 1, front)
DStart(k, p) == IF k \div 10 = 0 THEN 0 ELSE p
DStop(k, q) == IF k % 10 = 0 THEN MaxCP ELSE q
\* an excluded bound takes one step from that side
Design(k, p, q) == IF k = 99 THEN <<0, MaxCP>> ELSE IF k = 98 THEN <<0, 196607>>
    ELSE LET c == <<DStart(k, p), DStop(k, q)>>
             f == IF k \div 10 = 2 THEN StepF(c) ELSE c
         IN IF k % 10 = 2 THEN StepB(f) ELSE f

Init == /\ kind \in Kinds /\ hist = <<>>
        /\ x \in (IF kind >= 98 \/ kind \div 10 = 0 THEN {0} ELSE Bounds)
        /\ y \in (IF kind >= 98 \/ kind % 10 = 0 THEN {0} ELSE Bounds)
        /\ a = Denotes(kind, x, y)[1] /\ b = Denotes(kind, x, y)[2]
        /\ low = Design(kind, x, y)[1] /\ high = Design(kind, x, y)[2]
\* op n > 0: skip n-1 from the front and yield; n < 0: from the back.  A step on a finished
\* iterator yields nothing and leaves it finished.
Yield(n) == LET k == (IF n > 0 THEN n ELSE -n)
            IN IF Size(a, b) < k THEN -1 ELSE IF n > 0 THEN Char(a + k - 1) ELSE Char(b - k + 1)
Do(n) == LET k == (IF n > 0 THEN n ELSE -n) IN
    /\ hist' = Append(hist, <<n, Yield(n), Max2(0, Size(a, b) - k)>>)
    /\ IF n > 0 THEN a' = Min2(a + k, Max2(a, b + 1)) /\ b' = b
       ELSE b' = Max2(b - k, Min2(b, a - 1)) /\ a' = a
    /\ low' = Iter(<<low, high>>, k, n > 0)[1] /\ high' = Iter(<<low, high>>, k, n > 0)[2]
    /\ UNCHANGED <<kind, x, y>>
Next == Len(hist) < Steps /\ \E o \in Ops : Do(IF o > 100 THEN 100 - o ELSE o)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Refines == IF a <= b THEN low = Char(a) /\ high = Char(b) ELSE low > high
\* on a small code space: the set view
Remaining == {c \in Scalar : low <= c /\ c <= high}
DenotedSet == {c \in Scalar :
    /\ (kind = 99 \/ kind \div 10 = 0 \/ c > x \/ (kind \div 10 = 1 /\ c = x))
    /\ (kind = 99 \/ kind % 10 = 0 \/ c < y \/ (kind % 10 = 1 /\ c = y))}
Got == {hist[i][2] : i \in 1..Len(hist)} \ {-1}
SetView == /\ Remaining = {Char(r) : r \in a..b}
           /\ hist = <<>> => Remaining = DenotedSet
           /\ Cardinality(Remaining) = Size(a, b)
           /\ Got \cap Remaining = {}
           /\ Got \subseteq DenotedSet
           \* with single steps nothing is lost
           /\ Ops \subseteq {1, 101} => Got \cup Remaining = DenotedSet
           /\ \A i, j \in 1..Len(hist) : i < j /\ hist[i][2] # -1 => hist[i][2] # hist[j][2]

\* probes: <<character, is member, -1 / 0 / 1 (range before / contains / after it)>>
Cmp(c) == IF b < Rank(c) THEN -1 ELSE IF a > Rank(c) THEN 1 ELSE 0
Probes == {<<c, IF a <= Rank(c) /\ Rank(c) <= b THEN 1 ELSE 0, IF a > b THEN 9 ELSE Cmp(c)>> : c \in Bounds}
Line == IF hist = <<>> THEN <<0, kind, x, y, a, b, Size(a, b), Probes>>
        ELSE <<1, kind, x, y, hist, Size(a, b), IF a > b THEN -1 ELSE Char(a), IF a > b THEN -1 ELSE Char(b)>>
EmitAll == (EmitOn /\ (hist = <<>> \/ Len(hist) = Steps)) => PrintT(ToString(Line))
=============================================================================
