-------------------------------- MODULE UBA --------------------------------
(* The Unicode Bidirectional Algorithm (UAX #9, Unicode 10.0) over the       *)
(* sequence of Bidi classes of a text.  The explicit phase is a transition   *)
(* system over the directional status stack (XInit / XStep: one step per     *)
(* character); the resolution phases are operators over isolating run        *)
(* sequences.  Rule N0 (paired brackets) is deliberately absent: the code    *)
(* documents it as not implemented.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT MaxDepth

ClassSeq == <<"L","R","AL","EN","AN","ES","ET","CS","NSM","BN","B","S","WS","ON",
              "LRE","LRO","RLE","RLO","PDF","LRI","RLI","FSI","PDI">>
Classes    == {ClassSeq[i] : i \in 1..Len(ClassSeq)}
Strong     == {"L","R","AL"}
Initiators == {"LRI","RLI","FSI"}
Embeds     == {"LRE","LRO","RLE","RLO"}
Removed    == Embeds \cup {"PDF","BN"}                       \* rule X9
NIs        == {"B","S","WS","ON","FSI","LRI","RLI","PDI"}
Odd(l)     == l % 2 = 1
DirOf(l)   == IF Odd(l) THEN "R" ELSE "L"
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* P1: paragraph ends; P2/P3: base level; X5c: first strong isolates.        *)

ParaEnds(txt) == {i \in 1..Len(txt) : txt[i] = "B" \/ i = Len(txt)}
\* <<start, end>> of each paragraph, in order
Paragraphs(txt) ==
    LET step(acc, i) == IF txt[i] = "B" \/ i = Len(txt)
                        THEN [ps |-> Append(acc.ps, <<acc.from, i>>), from |-> i + 1]
                        ELSE acc
    IN FoldLeft(step, [ps |-> <<>>, from |-> 1], [i \in 1..Len(txt) |-> i]).ps

\* first strong class of txt[from..to] outside nested isolates, stopping at an
\* unmatched PDI when stop is TRUE (the FSI case); "" when there is none
FirstStrong(txt, from, to, stop) ==
    LET step(acc, k) ==
          LET c == txt[from + k - 1] IN
          IF acc.done THEN acc
          ELSE IF c \in Initiators THEN [acc EXCEPT !.depth = @ + 1]
          ELSE IF c = "PDI" THEN
                 IF acc.depth > 0 THEN [acc EXCEPT !.depth = @ - 1]
                 ELSE IF stop THEN [acc EXCEPT !.done = TRUE] ELSE acc
          ELSE IF c \in Strong /\ acc.depth = 0
               THEN [acc EXCEPT !.done = TRUE, !.res = c]
          ELSE acc
    IN FoldLeft(step, [depth |-> 0, done |-> FALSE, res |-> ""],
                [k \in 1..(IF to < from THEN 0 ELSE to - from + 1) |-> k]).res

BaseLevel(para) ==
    IF FirstStrong(para, 1, Len(para), FALSE) \in {"R","AL"} THEN 1 ELSE 0

\* reported classes of a paragraph: FSI replaced by the isolate it selects
Reported(para) ==
    [i \in 1..Len(para) |->
        IF para[i] # "FSI" THEN para[i]
        ELSE LET s == FirstStrong(para, i + 1, Len(para), TRUE) IN
             IF s = "" THEN "FSI" ELSE IF s = "L" THEN "LRI" ELSE "RLI"]

-----------------------------------------------------------------------------
(* X1-X8: directional status stack machine                                   *)
XInit(base) == [stack |-> <<[lv |-> base, ov |-> "N", iso |-> FALSE]>>,
                oi |-> 0, oe |-> 0, vi |-> 0, base |-> base, lv |-> <<>>, ty |-> <<>>]
Top(st) == Last(st.stack)
NextOdd(l)  == IF Odd(l) THEN l + 2 ELSE l + 1
NextEven(l) == IF Odd(l) THEN l + 1 ELSE l + 2
Overridden(st, c) == CASE Top(st).ov = "N" -> c [] OTHER -> Top(st).ov
Emit(st, l, t) == [st EXCEPT !.lv = Append(@, l), !.ty = Append(@, t)]

RECURSIVE PopIsolate(_)
PopIsolate(s) == IF Last(s).iso THEN Front(s) ELSE PopIsolate(Front(s))

XEmbed(st, c) ==
    LET nl == IF c \in {"RLE","RLO"} THEN NextOdd(Top(st).lv) ELSE NextEven(Top(st).lv)
        ov == CASE c = "RLO" -> "R" [] c = "LRO" -> "L" [] OTHER -> "N"
        ok == nl <= MaxDepth /\ st.oi = 0 /\ st.oe = 0
        s1 == IF ok THEN [st EXCEPT !.stack = Append(@, [lv |-> nl, ov |-> ov, iso |-> FALSE])]
              ELSE IF st.oi = 0 THEN [st EXCEPT !.oe = @ + 1] ELSE st
    IN Emit(s1, 0, c)
XIsolate(st, c) ==
    LET nl == IF c = "RLI" THEN NextOdd(Top(st).lv) ELSE NextEven(Top(st).lv)
        ok == nl <= MaxDepth /\ st.oi = 0 /\ st.oe = 0
        s0 == Emit(st, Top(st).lv, Overridden(st, c))
    IN IF ok THEN [s0 EXCEPT !.vi = @ + 1,
                             !.stack = Append(@, [lv |-> nl, ov |-> "N", iso |-> TRUE])]
             ELSE [s0 EXCEPT !.oi = @ + 1]
XPdi(st) ==
    LET s1 == IF st.oi > 0 THEN [st EXCEPT !.oi = @ - 1]
              ELSE IF st.vi = 0 THEN st
              ELSE [st EXCEPT !.oe = 0, !.vi = @ - 1, !.stack = PopIsolate(@)]
    IN Emit(s1, Top(s1).lv, Overridden(s1, "PDI"))
XPdf(st) ==
    LET s1 == IF st.oi > 0 THEN st
              ELSE IF st.oe > 0 THEN [st EXCEPT !.oe = @ - 1]
              ELSE IF ~Top(st).iso /\ Len(st.stack) >= 2 THEN [st EXCEPT !.stack = Front(@)]
              ELSE st
    IN Emit(s1, 0, "PDF")
\* c: class with FSI already resolved (an FSI without strong content acts as LRI)
XStep(st, c) ==
    CASE c \in Embeds     -> XEmbed(st, c)
      [] c \in Initiators -> XIsolate(st, c)
      [] c = "PDI"        -> XPdi(st)
      [] c = "PDF"        -> XPdf(st)
      [] c = "B"          -> Emit(st, st.base, "B")
      [] c = "BN"         -> Emit(st, 0, "BN")
      [] OTHER            -> Emit(st, Top(st).lv, Overridden(st, c))
Explicit(rep, base) == FoldLeft(XStep, XInit(base), rep)

-----------------------------------------------------------------------------
(* X9-X10: isolating run sequences, as sequences of kept positions (BD9, BD13) *)
\* matching PDI position of each initiator, 0 if none
Matching(rep) ==
    LET step(acc, i) ==
          IF rep[i] \in Initiators THEN [acc EXCEPT !.open = Append(@, i)]
          ELSE IF rep[i] = "PDI" /\ acc.open # <<>>
               THEN [open |-> Front(acc.open), m |-> [acc.m EXCEPT ![Last(acc.open)] = i]]
          ELSE acc
    IN FoldLeft(step, [open |-> <<>>, m |-> [i \in 1..Len(rep) |-> 0]],
                [i \in 1..Len(rep) |-> i]).m
Kept(rep) == SelectSeq([i \in 1..Len(rep) |-> i], LAMBDA i : rep[i] \notin Removed)

\* level runs (BD7) as sequences of positions, and chained into BD13 sequences
LevelRuns(kept, lv) ==
    LET step(acc, p) == IF acc # <<>> /\ lv[Last(Last(acc))] = lv[p]
                        THEN [acc EXCEPT ![Len(acc)] = Append(@, p)]
                        ELSE Append(acc, <<p>>)
    IN FoldLeft(step, <<>>, kept)
IsolatingRuns(rep, lv) ==
    LET m == TLCEval(Matching(rep))
        step(acc, run) ==
           LET h == Head(run)
               \* an open sequence whose last character is the initiator h matches
               k == IF rep[h] = "PDI"
                    THEN SelectInSeq(acc, LAMBDA s : rep[Last(s)] \in Initiators /\ m[Last(s)] = h)
                    ELSE 0
           IN IF k # 0 THEN [acc EXCEPT ![k] = @ \o run] ELSE Append(acc, run)
    IN FoldLeft(step, <<>>, LevelRuns(Kept(rep), lv))

\* previous / next kept position in the paragraph of every position, 0 if none
PrevKept(rep) ==
    FoldLeft(LAMBDA acc, i : [last |-> IF rep[i] \notin Removed THEN i ELSE acc.last,
                              out |-> Append(acc.out, acc.last)],
             [last |-> 0, out |-> <<>>], [i \in 1..Len(rep) |-> i]).out
NextKept(rep) ==
    LET n == Len(rep) IN
    Reverse(FoldLeft(LAMBDA acc, k : [last |-> IF rep[n-k+1] \notin Removed THEN n-k+1 ELSE acc.last,
                                      out |-> Append(acc.out, acc.last)],
             [last |-> 0, out |-> <<>>], [k \in 1..n |-> k]).out)
Sos(prev, lv, base, sq) ==
    LET q == prev[Head(sq)] IN DirOf(Max2(lv[Head(sq)], IF q = 0 THEN base ELSE lv[q]))
Eos(rep, next, lv, base, sq) ==
    LET p == Last(sq)  q == next[p]
    IN DirOf(Max2(lv[p], IF q = 0 \/ rep[p] \in Initiators THEN base ELSE lv[q]))

-----------------------------------------------------------------------------
(* W1-W7, N1-N2 on the types of one isolating run sequence                   *)
W1(ty, sos) ==
    LET step(acc, t) ==
          LET prev == IF acc = <<>> THEN sos ELSE Last(acc)
          IN Append(acc, IF t # "NSM" THEN t
                         ELSE IF prev \in Initiators \cup {"PDI"} THEN "ON" ELSE prev)
    IN FoldLeft(step, <<>>, ty)
W2(ty, sos) ==
    LET step(acc, t) == [out |-> Append(acc.out, IF t = "EN" /\ acc.s = "AL" THEN "AN" ELSE t),
                         s |-> IF t \in Strong THEN t ELSE acc.s]
    IN FoldLeft(step, [out |-> <<>>, s |-> sos], ty).out
W3(ty) == TLCEval([i \in 1..Len(ty) |-> IF ty[i] = "AL" THEN "R" ELSE ty[i]])
W4(ty) == TLCEval([i \in 1..Len(ty) |->
    IF i > 1 /\ i < Len(ty) /\ ty[i] \in {"ES","CS"} /\ ty[i-1] = "EN" /\ ty[i+1] = "EN" THEN "EN"
    ELSE IF i > 1 /\ i < Len(ty) /\ ty[i] = "CS" /\ ty[i-1] = "AN" /\ ty[i+1] = "AN" THEN "AN"
    ELSE ty[i]])
\* ET runs touching an EN on either side: spread from the left, then from the right
W5(ty) ==
    LET fwd(acc, t) == Append(acc, IF t = "ET" /\ acc # <<>> /\ Last(acc) = "EN" THEN "EN" ELSE t)
        one == FoldLeft(fwd, <<>>, ty)
    IN Reverse(FoldLeft(fwd, <<>>, Reverse(one)))
W6(ty) == TLCEval([i \in 1..Len(ty) |-> IF ty[i] \in {"ES","ET","CS"} THEN "ON" ELSE ty[i]])
W7(ty, sos) ==
    LET step(acc, t) == [out |-> Append(acc.out, IF t = "EN" /\ acc.s = "L" THEN "L" ELSE t),
                         s |-> IF t \in {"L","R"} THEN t ELSE acc.s]
    IN FoldLeft(step, [out |-> <<>>, s |-> sos], ty).out
Weak(ty, sos) == W7(W6(W5(W4(W3(W2(W1(ty, sos), sos))))), sos)

AsStrong(t) == IF t \in {"EN","AN"} THEN "R" ELSE t
\* each NI takes the direction of both neighbours when they agree, else the embedding's
Neutral(ty, sos, eos, e) ==
    LET left  == FoldLeft(LAMBDA acc, t : Append(acc, IF t \notin NIs THEN AsStrong(t)
                              ELSE IF acc = <<>> THEN sos ELSE Last(acc)), <<>>, ty)
        right == Reverse(FoldLeft(LAMBDA acc, t : Append(acc, IF t \notin NIs THEN AsStrong(t)
                              ELSE IF acc = <<>> THEN eos ELSE Last(acc)), <<>>, Reverse(ty)))
    IN [i \in 1..Len(ty) |-> IF ty[i] \notin NIs THEN ty[i]
                             ELSE IF left[i] = right[i] THEN left[i] ELSE e]
Implicit(l, t) == IF Odd(l) THEN (IF t \in {"L","EN","AN"} THEN l + 1 ELSE l)
                  ELSE CASE t = "R" -> l + 1 [] t \in {"EN","AN"} -> l + 2 [] OTHER -> l

\* types of the kept positions after N2, as a function on positions
Resolved(rep, x, base) ==
    LET prev == TLCEval(PrevKept(rep))
        next == TLCEval(NextKept(rep))
        step(acc, sq) ==
          LET sos == Sos(prev, x.lv, base, sq)
              eos == Eos(rep, next, x.lv, base, sq)
              t == TLCEval(Neutral(Weak([k \in 1..Len(sq) |-> x.ty[sq[k]]], sos), sos, eos, DirOf(x.lv[Head(sq)])))
          IN FoldLeft(LAMBDA a, k : [a EXCEPT ![sq[k]] = t[k]], acc, [k \in 1..Len(sq) |-> k])
    IN FoldLeft(step, x.ty, IsolatingRuns(rep, x.lv))

\* characters removed by X9 take the level of the character before them
RemovedLevels(rep, lv, base) ==
    FoldLeft(LAMBDA acc, i : Append(acc, IF rep[i] \notin Removed THEN lv[i]
                                         ELSE IF acc = <<>> THEN base ELSE Last(acc)),
             <<>>, [i \in 1..Len(rep) |-> i])
ParaLevels(rep, base) ==
    LET x == TLCEval(Explicit(rep, base))
        t == TLCEval(Resolved(rep, x, base))
    IN RemovedLevels(rep, TLCEval([i \in 1..Len(rep) |->
           IF rep[i] \in Removed THEN 0 ELSE Implicit(x.lv[i], t[i])]), base)

\* whole text; dir = 1000 for automatic, otherwise the given paragraph level
Analyze(txt, dir) ==
    LET one(pr) == LET para == SubSeq(txt, pr[1], pr[2])
                       base == IF dir = 1000 THEN BaseLevel(para) ELSE dir
                       rep  == TLCEval(Reported(para))
                   IN [from |-> pr[1], to |-> pr[2], base |-> base, rep |-> rep,
                       lv |-> ParaLevels(rep, base)]
        ps == Paragraphs(txt)
    IN TLCEval([k \in 1..Len(ps) |-> one(ps[k])])

-----------------------------------------------------------------------------
(* L1, L2: one line = positions from..to of a paragraph                      *)
WSLike == {"WS","FSI","LRI","RLI","PDI"}
Separators == {"B","S"}
\* Positions of the line whose level L1 resets: separators, and whitespace followed
\* (up to removed characters) by a separator or the end of the line.
L1Reset(rep, from, to) ==
    LET step(acc, k) == LET i == to - k + 1 IN
          IF rep[i] \in Separators THEN [tail |-> TRUE, set |-> acc.set \cup {i}]
          ELSE IF rep[i] \in WSLike
               THEN [acc EXCEPT !.set = IF acc.tail THEN @ \cup {i} ELSE @]
          ELSE IF rep[i] \in Removed THEN acc
          ELSE [acc EXCEPT !.tail = FALSE]
    IN FoldLeft(step, [tail |-> TRUE, set |-> {}],
                [k \in 1..(to - from + 1) |-> k]).set
\* allowed line levels: kept characters exactly; a removed character inside a reset
\* whitespace sequence is reset with it, before one it may or may not be.
LineLevelsOK(rep, lv, base, from, to, got) ==
    LET rs == TLCEval(L1Reset(rep, from, to))
        \* removed characters with a reset WS before them and no ordinary character between
        inside == FoldLeft(LAMBDA acc, k :
                     LET i == from + k - 1 IN
                     IF rep[i] \in Removed THEN [acc EXCEPT !.set = IF acc.ws THEN @ \cup {i} ELSE @]
                     ELSE [acc EXCEPT !.ws = (i \in rs /\ rep[i] \notin Separators)],
                     [ws |-> FALSE, set |-> {}], [k \in 1..(to - from + 1) |-> k]).set
    IN /\ Len(got) = to - from + 1
       /\ \A i \in from..to :
            LET g == got[i - from + 1] IN
            CASE i \in rs -> g = base
              [] rep[i] \notin Removed -> g = lv[i]
              [] i \in inside -> g = base
              [] OTHER -> g \in {lv[i], base}
\* L2 on a sequence of levels: the visual order of positions 1..Len
Reorder(ls) ==
    LET n == Len(ls)
        top == IF n = 0 THEN 0 ELSE CHOOSE m \in {ls[i] : i \in 1..n} : \A i \in 1..n : ls[i] <= m
        odds == {ls[i] : i \in 1..n} \cap {l \in 1..(MaxDepth+1) : Odd(l)}
        low == IF odds = {} THEN top + 1 ELSE CHOOSE l \in odds : \A k \in odds : l <= k
        \* reverse maximal segments of ord with level >= l
        flush(a) == [out |-> a.out \o Reverse(a.seg), seg |-> <<>>]
        rev(ord, l) ==
          LET step(acc, p) == IF ls[p] >= l THEN [acc EXCEPT !.seg = Append(@, p)]
                              ELSE [out |-> Append(flush(acc).out, p), seg |-> <<>>]
          IN flush(FoldLeft(step, [out |-> <<>>, seg |-> <<>>], ord)).out
    IN FoldLeft(LAMBDA ord, k : rev(ord, top - k + 1), [i \in 1..n |-> i],
                [k \in 1..(IF top < low THEN 0 ELSE top - low + 1) |-> k])
=============================================================================
