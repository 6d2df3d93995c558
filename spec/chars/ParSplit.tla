------------------------------ MODULE ParSplit ------------------------------
(* Parallel iteration: a producer over n elements is split, piece by piece, at   *)
(* arbitrary points; pieces are consumed from either end.  Whatever the schedule *)
(* of splits, the pieces in order cover the elements once, in order.             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sizes, Splits, EmitOn
VARIABLES n, pieces, hist
vars == <<n, pieces, hist>>
Init == n \in Sizes /\ pieces = << <<0, n>> >> /\ hist = <<>>     \* piece: <<first, end)
Split(i, at) ==
    LET p == pieces[i] IN
    /\ at \in 0..(p[2] - p[1])
    /\ pieces' = SubSeq(pieces, 1, i - 1) \o << <<p[1], p[1] + at>>, <<p[1] + at, p[2]>> >>
                 \o SubSeq(pieces, i + 1, Len(pieces))
    /\ hist' = Append(hist, <<i, at>>)
    /\ n' = n
Next == Len(hist) < Splits /\ \E i \in 1..Len(pieces) : \E at \in 0..(pieces[i][2] - pieces[i][1]) : Split(i, at)
Spec == Init /\ [][Next]_vars
Covers == /\ pieces[1][1] = 0 /\ pieces[Len(pieces)][2] = n
          /\ \A i \in 1..Len(pieces) : pieces[i][1] <= pieces[i][2]
          /\ \A i \in 2..Len(pieces) : pieces[i-1][2] = pieces[i][1]
EmitAll == (EmitOn /\ Len(hist) = Splits) => PrintT(ToString(<<n, hist, pieces>>))
=============================================================================
