------------------------------- MODULE Level -------------------------------
(* Embedding levels as a bounded counter: a state machine whose operations    *)
(* either move to the documented level or fail and leave it unchanged.        *)
EXTENDS Integers, TLC
CONSTANTS MaxExplicit, MaxImplicit, Amounts
VARIABLES n, ok
vars == <<n, ok>>
Init == n \in 0..1 /\ ok = TRUE
Move(m, max) == IF m \in 0..max THEN n' = m /\ ok' = TRUE ELSE n' = n /\ ok' = FALSE
Raise(k)         == Move(n + k, MaxImplicit)
RaiseExplicit(k) == Move(n + k, MaxExplicit)
Lower(k)         == Move(n - k, MaxImplicit)
NextLtr(m) == IF m % 2 = 0 THEN m + 2 ELSE m + 1
NextRtl(m) == IF m % 2 = 0 THEN m + 1 ELSE m + 2
LowestGeRtl(m) == IF m % 2 = 0 THEN m + 1 ELSE m
StepLtr == Move(NextLtr(n), MaxExplicit)
StepRtl == Move(NextRtl(n), MaxExplicit)
ToRtl   == Move(LowestGeRtl(n), MaxImplicit)
Next == \/ \E k \in Amounts : Raise(k) \/ RaiseExplicit(k) \/ Lower(k)
        \/ StepLtr \/ StepRtl \/ ToRtl
Spec == Init /\ [][Next]_vars
Bounded == n \in 0..MaxImplicit
FailureKeeps == [][ok' = FALSE => n' = n]_vars

\* expected outcome of every operation in every level, printed once per level
Line(op, k, good, res) == PrintT(ToString(<<op, n, k, good, res>>))
Out(op, k, m, max, keep) == IF m \in 0..max THEN Line(op, k, TRUE, m) ELSE Line(op, k, FALSE, keep)
EmitAll == ok =>
    /\ \A k \in 0..255 :
         /\ Out(3, k, n + k, MaxImplicit, n)
         /\ Out(4, k, n + k, MaxExplicit, n)
         /\ Out(5, k, n - k, MaxImplicit, n)
    /\ Out(6, 0, NextLtr(n), MaxExplicit, -1)
    /\ Out(7, 0, NextRtl(n), MaxExplicit, -1)
    /\ Out(8, 0, LowestGeRtl(n), MaxImplicit, -1)
    /\ Line(9, 0, TRUE, IF n % 2 = 1 THEN 2 ELSE 1)
    /\ \A k \in 0..MaxImplicit : Line(11, k, TRUE, IF n < k THEN -1 ELSE IF n = k THEN 0 ELSE 1)
    \* equality with the number's text, and what a pair of levels contains
    /\ \A k \in 0..MaxImplicit : Line(12, k, n % 2 = 1 \/ k % 2 = 1, IF n = k THEN 1 ELSE 0)
    /\ n = 0 => /\ \A k \in 0..255 : /\ PrintT(ToString(<<1, k, 0, k <= MaxImplicit, IF k <= MaxImplicit THEN k ELSE -1>>))
                                     /\ PrintT(ToString(<<2, k, 0, k <= MaxExplicit, IF k <= MaxExplicit THEN k ELSE -1>>))
                \* conversion, lists and reading back what was written: refused above the maximum
                /\ \A op \in {13, 14, 15}, k \in 0..255 : PrintT(ToString(<<op, k, 0, k <= MaxImplicit, IF k <= MaxImplicit THEN k ELSE -1>>))
                /\ \A k \in {256, 65536, -1, -128} : PrintT(ToString(<<15, k, 0, FALSE, -1>>))
                /\ Line(10, 0, TRUE, MaxExplicit) /\ Line(10, 1, TRUE, MaxImplicit)
                /\ Line(10, 2, TRUE, 0) /\ Line(10, 3, TRUE, 1)
=============================================================================
