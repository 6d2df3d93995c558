------------------------------ MODULE TraceChars ------------------------------
(* Recorded iterations of whole ranges (as runs of consecutive code points) and  *)
(* recorded lookups in large tables, validated against CharRange and CharTable.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, mode
r == T[k]
\* the real code space
C == INSTANCE CharRange WITH MaxCP <- 1114111, GapLo <- 55296, GapHi <- 57343, Bounds <- {}, Kinds <- {},
        Ops <- {}, Steps <- 0, EmitOn <- FALSE, kind <- 0, x <- 0, y <- 0, a <- 0, b <- 0, low <- 0, high <- 0, hist <- <<>>
\* the maximal runs of ranks i..j
Fwd(i, j) == IF i > j THEN <<>>
             ELSE IF i < 55296 /\ j >= 55296 THEN << <<i, 55295>>, <<57344, C!Char(j)>> >>
             ELSE << <<C!Char(i), C!Char(j)>> >>
Rev(s) == [i \in 1..Len(s) |-> LET e == s[Len(s) + 1 - i] IN <<e[2], e[1]>>]
D == C!Denotes(r.kind, r.x, r.y)
Range == /\ r.fwd = Fwd(D[1], D[2]) /\ r.len = C!Size(D[1], D[2])
         /\ r.back = Rev(Fwd(D[1], D[2]))
         \* nf steps from the front, then all from the back
         /\ LET m == IF D[1] + r.nf - 1 < D[2] THEN D[1] + r.nf - 1 ELSE D[2]
            IN r.mixf = Fwd(D[1], m) /\ r.mixb = Rev(Fwd(m + 1, D[2]))
Par == /\ r.par = Fwd(D[1], D[2]) /\ r.plen = C!Size(D[1], D[2])
       /\ r.prev = Rev(Fwd(D[1], D[2]))
       \* pieces: <<start rank offset, end, runs of the piece from the front (or from the back)>>
       /\ \A i \in 1..Len(r.pieces) :
            LET p == r.pieces[i]
                f == Fwd(D[1] + p[1], D[1] + p[2] - 1)
            IN p[3] = p[2] - p[1] /\ r.runs[i] = (IF p[4] = 1 THEN Rev(f) ELSE f)
       /\ Len(r.runs) = Len(r.pieces)
\* table: entries <<lo, hi, value>>; probes <<character, entry number or 0>>
Sorted == \A i \in 1..Len(r.t) : r.t[i][1] <= r.t[i][2] /\ (i > 1 => r.t[i-1][2] < r.t[i][1])
Table == /\ Sorted
         /\ \A i \in 1..Len(r.probes) :
              LET c == r.probes[i][1]
                  e == r.probes[i][2]
                  n == Len(r.t)
              IN IF e # 0 THEN r.t[e][1] <= c /\ c <= r.t[e][2]
                 \* not in the table: it lies before, after or between two neighbours
                 ELSE LET g == r.probes[i][3] IN
                      /\ g \in 0..n
                      /\ (g = 0 \/ r.t[g][2] < c) /\ (g = n \/ c < r.t[g + 1][1])
Ok == CASE r.kind2 = "range" -> Range [] r.kind2 = "par" -> Par [] r.kind2 = "table" -> Table
Check == IF Ok THEN TRUE ELSE PrintT(ToString(<<"MISMATCH", r.kind2, k>>))
Init == k \in 1..Len(T) /\ mode = 0
Next == FALSE /\ UNCHANGED <<k, mode>>
Spec == Init /\ [][Next]_<<k, mode>>
=============================================================================
