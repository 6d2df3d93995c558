--------------------------- MODULE GraphemeCursor ---------------------------
(* The chunked cursor as its caller sees it: the text is only known to the      *)
(* cursor through the chunks and contexts handed to it.  off = the offset the    *)
(* cursor stands at (committed by the last completed call); pend = the call      *)
(* waiting for more input, with the request the cursor made.  Offsets count      *)
(* characters; a chunk is the pair <<from, to>> of offsets it covers.            *)
EXTENDS GraphemeRules
VARIABLES s, ext, off, pend
cvars == <<s, ext, off, pend>>
None == [op |-> "none", req |-> "none", at |-> 0, chunk |-> <<0, 0>>]
N == Len(s)
IsB(i) == i = 0 \/ i = N \/ GBreak(s, i, ext)
NextB(i) == CHOOSE j \in (i+1)..N : IsB(j) /\ \A k \in (i+1)..(j-1) : ~IsB(k)
PrevB(i) == CHOOSE j \in 0..(i-1) : IsB(j) /\ \A k \in (j+1)..(i-1) : ~IsB(k)

New(text, extended, at) ==
    s' = text /\ ext' = extended /\ off' = at /\ pend' = None
SetCursor(at) == at \in 0..N /\ off' = at /\ pend' = None /\ UNCHANGED <<s, ext>>

\* the chunk a caller must pass: after a request, the one asked for
ChunkFor(op, c) ==
    /\ c[1] >= 0 /\ c[2] <= N /\ (N > 0 => c[1] < c[2])
    /\ CASE pend.op = op /\ pend.req = "next" -> c[1] = pend.at
         [] pend.op = op /\ pend.req = "prev" -> c[2] = pend.at
         [] pend.op = op /\ pend.req = "ctxdone" -> c = pend.chunk
         [] pend.op = "none" ->
              IF op = "prev" THEN c[1] <= off /\ off <= c[2]
              ELSE c[1] <= off /\ (off < c[2] \/ (off = N /\ c[2] = N))
         [] OTHER -> FALSE
Done(o) == off' = o /\ pend' = None /\ UNCHANGED <<s, ext>>
Ask(op, req, at, c) == pend' = [op |-> op, req |-> req, at |-> at, chunk |-> c] /\ UNCHANGED <<s, ext, off>>
\* a context request names an existing, not yet known position at or before what was shown
AskContext(op, c, k) == k \in 1..c[1] /\ Ask(op, "ctx", k, c)

IsBoundary(c, kind, val) ==
    /\ ChunkFor("is", c)
    /\ \/ kind = "ok" /\ val = (IF IsB(off) THEN 1 ELSE 0) /\ Done(off)
       \/ kind = "ctx" /\ AskContext("is", c, val)
NextBoundary(c, kind, val) ==
    /\ ChunkFor("next", c)
    /\ \/ kind = "none" /\ off = N /\ Done(off)
       \/ kind = "ok" /\ off < N /\ val = NextB(off) /\ Done(val)
       \/ kind = "ctx" /\ off < N /\ AskContext("next", c, val)
       \* only when the answer is not before the end of the chunk, and there is a next chunk
       \/ kind = "next" /\ off < N /\ c[2] < N /\ NextB(off) >= c[2] /\ Ask("next", "next", c[2], c)
PrevBoundary(c, kind, val) ==
    /\ ChunkFor("prev", c)
    /\ \/ kind = "none" /\ off = 0 /\ Done(off)
       \/ kind = "ok" /\ off > 0 /\ val = PrevB(off) /\ Done(val)
       \/ kind = "ctx" /\ off > 0 /\ AskContext("prev", c, val)
       \/ kind = "prev" /\ off > 0 /\ c[1] > 0 /\ PrevB(off) <= c[1] /\ Ask("prev", "prev", c[1], c)
\* a chunk that does not contain the position (nor end at it): the query is rejected, or answered
\* if the answer was known, and has no effect, not even on a query that waits for its context
MisplacedBoundary(c, kind, val) ==
    /\ 0 <= c[1] /\ c[1] < c[2] /\ c[2] <= N /\ (off < c[1] \/ off > c[2])
    /\ pend.op \in {"none", "is"}
    /\ kind = "invalid" \/ (kind = "ok" /\ pend.req \in {"none", "ctxdone"} /\ val = (IF IsB(off) THEN 1 ELSE 0))
    /\ UNCHANGED cvars
\* the caller supplies the context asked for: some text ending where the request says
ProvideContext(c) ==
    /\ pend.req = "ctx" /\ c[2] = pend.at /\ c[1] \in 0..(pend.at - 1)
    /\ pend' = [pend EXCEPT !.req = "ctxdone"] /\ UNCHANGED <<s, ext, off>>
=============================================================================
