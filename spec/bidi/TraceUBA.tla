------------------------------ MODULE TraceUBA ------------------------------
(* Validates recorded runs of the implementation (texts, levels, lines) against UBA. *)
EXTENDS UBA, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == 25
VARIABLE l          \* next record to validate; every chunk is an independent behaviour
Init == l \in {i \in 1..N : i % Chunk = 1 \/ Chunk = 1}
Name(c) == ClassSeq[c]
Names(s) == [i \in 1..Len(s) |-> Name(s[i])]

Ints(n) == [i \in 1..n |-> i]
Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

ParasOK(r, an) ==
    /\ r.uni = 1
    /\ r.paras = [k \in 1..Len(an) |-> <<an[k].from, an[k].to, an[k].base>>]
    /\ Names(r.ocls) = Cat([k \in 1..Len(an) |-> an[k].rep])
LevelsOK(r, an) ==
    /\ r.uni = 1
    /\ r.lv = Cat([k \in 1..Len(an) |-> an[k].lv])
    /\ r.rtl = IF \E i \in 1..Len(r.lv) : Odd(r.lv[i]) THEN 1 ELSE 0
\* one line of paragraph ln.p: runs are the maximal equal-level runs in visual order; the levels
\* of the text are the reported ones, which B01 judges
LineOK(r, an, ln) ==
    LET a == an[ln.p]
        rlv == SubSeq(r.lv, a.from, a.to)
        f == ln.from - a.from + 1
        t == ln.to - a.from + 1
        runs == SelectSeq(ln.runs, LAMBDA q : q[1] <= q[2])
        vis == Reorder(ln.lv)                      \* visual order of positions in the line
        flat == Cat([k \in 1..Len(runs) |->
                   LET q == runs[k]  n == q[2] - q[1] + 1
                   IN [j \in 1..n |-> (IF Odd(ln.lv[q[1] - ln.from + 1]) THEN q[2] - j + 1
                                       ELSE q[1] + j - 1) - ln.from + 1]])
        maximal(q) ==
            /\ \A i \in q[1]..q[2] : ln.lv[i - ln.from + 1] = ln.lv[q[1] - ln.from + 1]
            /\ q[1] > ln.from => ln.lv[q[1] - ln.from] # ln.lv[q[1] - ln.from + 1]
            /\ q[2] < ln.to   => ln.lv[q[2] - ln.from + 2] # ln.lv[q[2] - ln.from + 1]
    IN /\ ln.uni = 1
       /\ ln.lvc = ln.lv
       /\ LineLevelsOK(a.rep, rlv, a.base, f, t, ln.lv)
       /\ \A k \in 1..Len(runs) : runs[k][1] >= ln.from /\ runs[k][2] <= ln.to /\ maximal(runs[k])
       /\ flat = vis
       /\ ln.out = [k \in 1..Len(vis) |-> r.cps[ln.from + vis[k] - 1]]

Mismatch(what, i, more) == PrintT(ToString(<<"MISMATCH", what, i, more>>))
Check(i) ==
    LET r == Trace[i]
        an == Analyze(Names(r.cls), r.dir)
        pok == ParasOK(r, an)
        lok == LevelsOK(r, an)
    IN /\ IF pok THEN TRUE ELSE Mismatch("B02", i, <<>>)
       /\ IF lok THEN TRUE ELSE Mismatch("B01", i, Cat([k \in 1..Len(an) |-> an[k].lv]))
       /\ IF pok /\ Len(r.lv) = Len(r.cls)
          THEN \A k \in 1..Len(r.lines) :
                 IF LineOK(r, an, r.lines[k]) THEN TRUE ELSE Mismatch("B03", i, <<k, r.lines[k]>>)
          ELSE TRUE
Consume == l <= N /\ Check(l) /\ (l % Chunk) # 0 /\ l < N /\ l' = l + 1
ConsumeLast == l <= N /\ ((l % Chunk) = 0 \/ l = N) /\ Check(l) /\ l' = N + l
Next == Consume \/ ConsumeLast
Spec == Init /\ [][Next]_l
=============================================================================
