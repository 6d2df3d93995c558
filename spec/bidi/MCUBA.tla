------------------------------- MODULE MCUBA -------------------------------
(* Exhaustive model: every class string up to MaxLen over Alphabet, each base  *)
(* direction.  Checks design invariants and emits the expected levels of every *)
(* string for replay on the implementation.                                    *)
EXTENDS UBA
CONSTANTS Alphabet, MaxLen, Dirs, EmitOn,
          Openers,   \* kinds of prefix every string starts with: "none", or a nest opened by ...
          Nests      \* number of embeddings in the prefix
VARIABLES txt, dir, pre
vars == <<txt, dir, pre>>
\* Prefixes drive the directional status stack to the edge of MaxDepth: embeddings of alternating
\* direction, each one level deeper, from inside nothing, an isolate, or an isolate of an isolate.
Opening == [none |-> <<>>, LRI |-> <<"LRI">>, RLI |-> <<"RLI">>, FSI |-> <<"FSI", "EN">>,
            LRO |-> <<"RLI", "LRO">>, two |-> <<"LRI", "RLE", "RLI">>]
Nested(o, n) == Opening[o] \o [i \in 1..n |-> IF i % 2 = (IF o \in {"RLI", "two"} THEN 0 ELSE 1) THEN "RLE" ELSE "LRE"]
Init == /\ dir \in Dirs
        /\ \E o \in Openers, n \in Nests : txt = Nested(o, n)
        /\ pre = Len(txt)
ReadChar(c) == Len(txt) - pre < MaxLen /\ txt' = Append(txt, c) /\ UNCHANGED <<dir, pre>>
Next == \E c \in Alphabet : ReadChar(c)
Spec == Init /\ [][Next]_vars

Code(c) == CHOOSE i \in 1..Len(ClassSeq) : ClassSeq[i] = c
CodeOf == [c \in Classes |-> Code(c)]
Result == Analyze(txt, dir)
EmitLine(res) ==
    PrintT(ToString(<<dir, [i \in 1..Len(txt) |-> CodeOf[txt[i]]],
        FoldLeft(LAMBDA a, p : a \o p.lv, <<>>, res),
        FoldLeft(LAMBDA a, p : a \o [i \in 1..Len(p.rep) |-> CodeOf[p.rep[i]]], <<>>, res),
        [k \in 1..Len(res) |-> <<res[k].from, res[k].to, res[k].base>>]>>))

-----------------------------------------------------------------------------
\* Design invariants
StackOK(rep, base) ==
    LET x == Explicit(rep, base) IN
    /\ \A k \in 1..(Len(x.stack)-1) : x.stack[k].lv < x.stack[k+1].lv
    /\ \A k \in 1..Len(x.stack) : x.stack[k].lv <= MaxDepth
    /\ x.vi = Cardinality({k \in 1..Len(x.stack) : x.stack[k].iso})
    \* valid + overflowing isolates are exactly the initiators still open by BD9
    /\ rep = <<>> \/ Last(rep) = "B" \/
       x.vi + x.oi = Cardinality({i \in 1..Len(rep) : rep[i] \in Initiators /\ Matching(rep)[i] = 0})
\* BD13: the sequences partition the kept positions, each at one level
SequencesOK(rep, base) ==
    LET x == Explicit(rep, base)  sq == IsolatingRuns(rep, x.lv)
        k == Kept(rep)
    IN /\ FoldLeft(LAMBDA n, s : n + Len(s), 0, sq) = Len(k)
       /\ \A p \in {k[i] : i \in 1..Len(k)} : \E j \in 1..Len(sq) : \E q \in 1..Len(sq[j]) : sq[j][q] = p
       /\ \A j \in 1..Len(sq) : \A q \in 1..Len(sq[j]) : x.lv[sq[j][q]] = x.lv[sq[j][1]]
       /\ \A j \in 1..Len(sq) : \A q \in 1..(Len(sq[j])-1) : sq[j][q] < sq[j][q+1]
ResolvedOK(rep, base) ==
    LET x == Explicit(rep, base)  t == Resolved(rep, x, base)
    IN \A i \in 1..Len(rep) : rep[i] \notin Removed => t[i] \in {"L","R","EN","AN"}
LevelsOK(p) == \A i \in 1..Len(p.lv) : p.lv[i] \in 0..(MaxDepth + 1) /\ p.lv[i] >= p.base
\* an isolate seen from outside is a neutral: replacing the contents of the first matched
\* isolate by nothing leaves all levels outside it unchanged (fixed direction only)
IsolationOK(p) ==
    LET m == Matching(p.rep)
        s == {i \in 1..Len(p.rep) : m[i] # 0}
    IN s = {} \/
       LET i == CHOOSE a \in s : \A b \in s : a <= b
           j == m[i]
           cut == SubSeq(p.rep, 1, i) \o SubSeq(p.rep, j, Len(p.rep))
           lv2 == ParaLevels(cut, p.base)
       IN /\ \A k \in 1..i : lv2[k] = p.lv[k]
          /\ \A k \in j..Len(p.rep) : lv2[k - (j - i - 1)] = p.lv[k]
\* L2 yields a permutation that is the identity when every level is even
ReorderOK(p) ==
    LET o == Reorder(p.lv) IN
    /\ {o[i] : i \in 1..Len(o)} = 1..Len(p.lv) /\ Len(o) = Len(p.lv)
    /\ (\A i \in 1..Len(p.lv) : ~Odd(p.lv[i])) => o = [i \in 1..Len(p.lv) |-> i]
Sound == LET res == Result IN
    /\ FoldLeft(LAMBDA n, p : IF p.from = n + 1 /\ p.to >= p.from THEN p.to ELSE -5, 0, res) = Len(txt)
    /\ \A k \in 1..Len(res) :
         /\ StackOK(res[k].rep, res[k].base)
         /\ SequencesOK(res[k].rep, res[k].base)
         /\ ResolvedOK(res[k].rep, res[k].base)
         /\ LevelsOK(res[k])
         /\ IsolationOK(res[k])
         /\ ReorderOK(res[k])
EmitAll == (EmitOn /\ txt # <<>>) => EmitLine(Result)
=============================================================================
