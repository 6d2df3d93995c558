---------------------------- MODULE TraceSegment ----------------------------
(* Validates recorded cursor dialogues and double-ended iterations, one event   *)
(* per step, against GraphemeCursor, GraphemeRules and WordRules.                *)
EXTENDS GraphemeCursor, Json, IOUtils
W == INSTANCE WordRules
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, lo, hi, done      \* record, next event, unconsumed range of offsets
vars == <<s, ext, off, pend, r, k, lo, hi, done>>
Rec == Trace[r]
GName(x) == [i \in 1..Len(x) |-> GSeq[x[i]]]
WName(x) == [i \in 1..Len(x) |-> W!WSeq[x[i]]]
Text(t) == IF t.kind = "word" THEN WName(t.s) ELSE GName(t.s)

Init == /\ r \in 1..Len(Trace) /\ k = 1 /\ done = FALSE
        /\ s = Text(Trace[r]) /\ ext = (Trace[r].ext = 1)
        /\ off = Trace[r].at /\ pend = None
        /\ lo = 0 /\ hi = Len(Trace[r].s)
Ev == Rec.ev[k]
More == ~done /\ k <= Len(Rec.ev)
Adv == k' = k + 1 /\ UNCHANGED <<r, lo, hi, done>>
\* ev: <<op, chunk from, chunk to, result kind, value>>
CurSet  == Rec.kind = "cursor" /\ More /\ Ev[1] = "set"  /\ SetCursor(Ev[5]) /\ Adv
CurIs   == Rec.kind = "cursor" /\ More /\ Ev[1] = "is"   /\ IsBoundary(<<Ev[2], Ev[3]>>, Ev[4], Ev[5]) /\ Adv
CurNext == Rec.kind = "cursor" /\ More /\ Ev[1] = "next" /\ NextBoundary(<<Ev[2], Ev[3]>>, Ev[4], Ev[5]) /\ Adv
CurPrev == Rec.kind = "cursor" /\ More /\ Ev[1] = "prev" /\ PrevBoundary(<<Ev[2], Ev[3]>>, Ev[4], Ev[5]) /\ Adv
CurFar  == Rec.kind = "cursor" /\ More /\ Ev[1] = "far"  /\ MisplacedBoundary(<<Ev[2], Ev[3]>>, Ev[4], Ev[5]) /\ Adv
CurCtx  == Rec.kind = "cursor" /\ More /\ Ev[1] = "ctx"  /\ ProvideContext(<<Ev[2], Ev[3]>>) /\ Adv

Bound(i) == IF Rec.kind = "word" THEN i = 0 \/ i = N \/ W!WBreak(s, i) ELSE IsB(i)
FirstEnd == CHOOSE j \in (lo+1)..hi : Bound(j) /\ \A x \in (lo+1)..(j-1) : ~Bound(x)
LastStart == CHOOSE j \in lo..(hi-1) : Bound(j) /\ \A x \in (j+1)..(hi-1) : ~Bound(x)
\* double-ended iteration; ev: <<op, piece from, piece to, remaining from, remaining to>>,
\* piece <<-1, -1>> for the end of the iteration
Iter == Rec.kind \in {"grapheme", "word"}
StepFront == /\ Iter /\ More /\ Ev[1] = "f" /\ lo < hi
             /\ lo' = FirstEnd /\ hi' = hi
             /\ Ev[2] = lo /\ Ev[3] = lo' /\ Ev[4] = lo' /\ Ev[5] = hi'
             /\ k' = k + 1 /\ UNCHANGED <<r, done, s, ext, off, pend>>
StepBack ==  /\ Iter /\ More /\ Ev[1] = "b" /\ lo < hi
             /\ hi' = LastStart /\ lo' = lo
             /\ Ev[2] = hi' /\ Ev[3] = hi /\ Ev[4] = lo' /\ Ev[5] = hi'
             /\ k' = k + 1 /\ UNCHANGED <<r, done, s, ext, off, pend>>
StepEnd ==   /\ Iter /\ More /\ lo = hi /\ Ev[2] = -1 /\ Ev[3] = -1 /\ Ev[4] = Ev[5]
             /\ k' = k + 1 /\ UNCHANGED <<r, lo, hi, done, s, ext, off, pend>>
Act == CurSet \/ CurIs \/ CurNext \/ CurPrev \/ CurFar \/ CurCtx \/ StepFront \/ StepBack \/ StepEnd
Finish == /\ ~done /\ k = Len(Rec.ev) + 1 /\ done' = TRUE
          /\ UNCHANGED <<r, k, lo, hi, s, ext, off, pend>>
Stuck == /\ ~done /\ k <= Len(Rec.ev) /\ ~ENABLED Act
         /\ PrintT(ToString(<<"MISMATCH", Rec.kind, r, <<k, Ev>>>>))
         /\ done' = TRUE /\ UNCHANGED <<r, k, lo, hi, s, ext, off, pend>>
Next == Act \/ Finish \/ Stuck
Spec == Init /\ [][Next]_vars
=============================================================================
