------------------------------ MODULE TableGen ------------------------------
(* The generator of range tables as a transition system over one cluster of      *)
(* neighbouring code points: a data file is laid out (lines of one code point or *)
(* of a range, each with a value), read into a map, and the map is written as a  *)
(* table of ranges by the one-pass writer.  Whatever the lines, the table        *)
(* denotes the map of the lines, its ranges ascend, are disjoint and cannot be   *)
(* merged.  Each layout is also emitted as a plan for a real data file.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,          \* code points of the cluster: 1..N
          Gap,        \* the code point after which the surrogate gap lies (N: none)
          Values, EmitOn
VARIABLES ph, p, lines,          \* layout: next free position, lines <<lo, hi, value>>
          map,                   \* what was read: position -> value, 0 if unlisted
          low, high, val, out    \* the writer
vars == <<ph, p, lines, map, low, high, val, out>>

\* the code point numbers: those above the gap are shifted by its size
Cp(i) == IF i <= Gap THEN i ELSE i + 10
Init == /\ ph = "lay" /\ p = 1 /\ lines = <<>> /\ map = [i \in 1..N |-> 0]
        /\ low = 0 /\ high = 0 /\ val = 0 /\ out = <<>>
Lay == /\ ph = "lay" /\ p <= N
       /\ \/ p' = p + 1 /\ lines' = lines
          \/ \E h \in p..N, v \in Values : lines' = Append(lines, <<p, h, v>>) /\ p' = h + 1
       /\ UNCHANGED <<ph, map, low, high, val, out>>
\* one line is read
Read == /\ ph \in {"lay", "read"} /\ p = N + 1 /\ ph' = "read"
        /\ lines # <<>> /\ out = <<>> /\ low = 0
        /\ LET k == Cardinality({i \in 1..N : map[i] # 0})
               l == CHOOSE x \in 1..Len(lines) :
                       /\ \A i \in lines[x][1]..lines[x][2] : map[i] = 0
                       /\ \A y \in 1..(x - 1) : \A i \in lines[y][1]..lines[y][2] : map[i] # 0
           IN /\ \E x \in 1..Len(lines) : map[lines[x][1]] = 0
              /\ map' = [i \in 1..N |-> IF lines[l][1] <= i /\ i <= lines[l][2] THEN lines[l][3] ELSE map[i]]
        /\ UNCHANGED <<p, lines, low, high, val, out>>
AllRead == p = N + 1 /\ \A x \in 1..Len(lines) : map[lines[x][1]] # 0
Next1(i) == CHOOSE j \in (i + 1)..N : map[j] # 0 /\ \A m \in (i + 1)..(j - 1) : map[m] = 0
More(i) == \E j \in (i + 1)..N : map[j] # 0
\* the writer: start, extend, cut, finish
Start == /\ ph \in {"lay", "read"} /\ AllRead /\ ph' = "write"
         /\ IF More(0) THEN LET f == Next1(0) IN low' = f /\ high' = f /\ val' = map[f] ELSE UNCHANGED <<low, high, val>>
         /\ UNCHANGED <<p, lines, map, out>>
Step == /\ ph = "write" /\ low # 0
        /\ IF More(high)
           THEN LET n == Next1(high) IN
                IF map[n] # val \/ Cp(n) > Cp(high) + 1
                THEN out' = Append(out, <<low, high, val>>) /\ low' = n /\ high' = n /\ val' = map[n] /\ UNCHANGED ph
                ELSE high' = n /\ UNCHANGED <<ph, out, low, val>>
           ELSE out' = Append(out, <<low, high, val>>) /\ ph' = "done" /\ UNCHANGED <<low, high, val>>
        /\ UNCHANGED <<p, lines, map>>
Empty == ph = "write" /\ low = 0 /\ ph' = "done" /\ UNCHANGED <<p, lines, map, low, high, val, out>>
Next == Lay \/ Read \/ Start \/ Step \/ Empty
Spec == Init /\ [][Next]_vars

Listed == [i \in 1..N |-> IF \E x \in 1..Len(lines) : lines[x][1] <= i /\ i <= lines[x][2]
                          THEN lines[CHOOSE x \in 1..Len(lines) : lines[x][1] <= i /\ i <= lines[x][2]][3] ELSE 0]
Denoted(t) == [i \in 1..N |-> IF \E x \in 1..Len(t) : t[x][1] <= i /\ i <= t[x][2]
                              THEN t[CHOOSE x \in 1..Len(t) : t[x][1] <= i /\ i <= t[x][2]][3] ELSE 0]
Ordered(t) == \A x \in 1..Len(t) : t[x][1] <= t[x][2] /\ (x > 1 => t[x - 1][2] < t[x][1])
\* no two neighbours could be one
Maximal(t) == \A x \in 2..Len(t) : ~(t[x - 1][3] = t[x][3] /\ Cp(t[x][1]) = Cp(t[x - 1][2]) + 1)
Sound == ph = "done" => map = Listed /\ Denoted(out) = map /\ Ordered(out) /\ Maximal(out)
\* while it is written, the table and the pending range are what has been passed
Partial == ph = "write" /\ low # 0 =>
    LET t == Append(out, <<low, high, val>>)
    IN Ordered(t) /\ \A i \in 1..N : Denoted(t)[i] = IF i <= high THEN map[i] ELSE 0
EmitAll == ph = "done" /\ EmitOn => PrintT(ToString(<<"PLAN", lines>>))
=============================================================================
