------------------------------ MODULE MCLines ------------------------------
(* Line reordering, exhaustively: every text up to MaxLen over Alphabet, every paragraph of it  *)
(* and every line of that paragraph.  The expected levels (L1) and the visual order (L2) of     *)
(* every line are emitted for replay on the implementation.  Lines on which L1 leaves the level *)
(* of a removed character open are not emitted (TraceUBA validates those).                      *)
EXTENDS MCUBA
Exact(p, f, t) ==
    \A i \in f..t : p.rep[i] \in Removed => p.lv[i] = p.base
LineLevels(p, f, t) ==
    LET rs == TLCEval(L1Reset(p.rep, f, t))
    IN [i \in 1..(t - f + 1) |-> IF (f + i - 1) \in rs THEN p.base ELSE p.lv[f + i - 1]]
\* <<paragraph, from, to, levels, visual order>>, positions in the text
LinesOf(k, p) ==
    LET n == Len(p.rep)
        ends == [i \in 1..(n * n) |-> <<((i - 1) \div n) + 1, ((i - 1) % n) + 1>>]
        good == SelectSeq(ends, LAMBDA e : e[1] <= e[2] /\ Exact(p, e[1], e[2]))
    IN [j \in 1..Len(good) |->
          LET lv == TLCEval(LineLevels(p, good[j][1], good[j][2]))
          IN <<k, good[j][1] + p.from - 1, good[j][2] + p.from - 1, lv, Reorder(lv)>>]
EmitLines ==
    (EmitOn /\ txt # <<>>) =>
      LET res == Result IN
      PrintT(ToString(<<dir, [i \in 1..Len(txt) |-> CodeOf[txt[i]]],
          FoldLeft(LAMBDA a, p : a \o p.lv, <<>>, res),
          FoldLeft(LAMBDA a, k : a \o LinesOf(k, res[k]), <<>>, [k \in 1..Len(res) |-> k])>>))
\* a line of even levels keeps its order; reversing a line twice by L2 with all levels odd gives it back
LinesSound ==
    LET res == Result IN
    \A k \in 1..Len(res) : \A f \in 1..Len(res[k].rep) : \A t \in f..Len(res[k].rep) :
      LET lv == LineLevels(res[k], f, t)  o == Reorder(lv) IN
      /\ {o[i] : i \in 1..Len(o)} = 1..(t - f + 1)
      /\ (\A i \in 1..Len(lv) : ~Odd(lv[i])) => o = [i \in 1..Len(lv) |-> i]
      /\ (\A i \in 1..Len(lv) : lv[i] = 1) => o = [i \in 1..Len(lv) |-> Len(lv) - i + 1]
      \* adjacent characters of one level stay adjacent
      /\ \A i \in 1..(Len(lv)-1) : lv[i] = lv[i+1] =>
           \E j \in 1..(Len(lv)-1) : {o[j], o[j+1]} = {i, i+1}
=============================================================================
