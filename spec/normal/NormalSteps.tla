----------------------------- MODULE NormalSteps -----------------------------
(* Canonical decomposition as rewriting: decompose one character, or exchange    *)
(* two adjacent marks that are out of order, anywhere, in any order.  All        *)
(* schedules lead to the same text, NFD: this is why a lazy, buffered            *)
(* implementation may interleave the two in any way.                             *)
EXTENDS Normal
CONSTANTS Alphabet, MaxLen
VARIABLES orig, cur
vars == <<orig, cur>>
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<<>>} ELSE {Append(t, c) : t \in Strs(n - 1), c \in Alphabet}
Init == orig \in UNION {Strs(n) : n \in 0..MaxLen} /\ cur = orig
One(c) == IF IsSyl(c) THEN SylDec(c) ELSE LET i == DecIdx(c) IN IF i = 0 \/ DecMap[i][2] = 2 THEN <<c>> ELSE DecMap[i][3]
Split == \E i \in 1..Len(cur) : One(cur[i]) # <<cur[i]>>
            /\ cur' = SubSeq(cur, 1, i - 1) \o One(cur[i]) \o SubSeq(cur, i + 1, Len(cur))
Swap == \E i \in 2..Len(cur) : Ccc(cur[i]) > 0 /\ Ccc(cur[i-1]) > Ccc(cur[i])
            /\ cur' = [cur EXCEPT ![i-1] = cur[i], ![i] = cur[i-1]]
Next == (Split \/ Swap) /\ orig' = orig
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Equivalent == NFD(cur) = NFD(orig)
Terminal == ~ENABLED Next => cur = NFD(orig)
=============================================================================
