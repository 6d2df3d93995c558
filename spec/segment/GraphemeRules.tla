--------------------------- MODULE GraphemeRules ---------------------------
(* Grapheme cluster boundary rules of UAX #29 (Unicode 10.0), stated over the  *)
(* sequence of Grapheme_Cluster_Break classes of the whole text.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
GSeq == <<"CR","LF","CN","EX","ZWJ","RI","PP","SM","L","V","T","LV","LVT","EB","EBG","EM","GAZ","XX">>
GClasses == {GSeq[i] : i \in 1..Len(GSeq)}
Ctl == {"CR","LF","CN"}

\* start of the maximal run of class c ending at i (i+1 when s[i] is not c)
RECURSIVE RunStart(_, _, _)
RunStart(s, i, c) == IF i >= 1 /\ s[i] = c THEN RunStart(s, i - 1, c) ELSE i + 1

\* is there a boundary between s[i] and s[i+1]?  (1 <= i < Len(s))
GBreak(s, i, extended) ==
    LET b == s[i]  a == s[i + 1] IN
    CASE b = "CR" /\ a = "LF"                             -> FALSE  \* GB3
      [] b \in Ctl \/ a \in Ctl                           -> TRUE   \* GB4, GB5
      [] b = "L" /\ a \in {"L","V","LV","LVT"}            -> FALSE  \* GB6
      [] b \in {"LV","V"} /\ a \in {"V","T"}              -> FALSE  \* GB7
      [] b \in {"LVT","T"} /\ a = "T"                     -> FALSE  \* GB8
      [] a \in {"EX","ZWJ"}                               -> FALSE  \* GB9
      [] extended /\ a = "SM"                             -> FALSE  \* GB9a
      [] extended /\ b = "PP"                             -> FALSE  \* GB9b
      [] a = "EM" /\ LET k == RunStart(s, i, "EX") - 1
                     IN k >= 1 /\ s[k] \in {"EB","EBG"}   -> FALSE  \* GB10
      [] b = "ZWJ" /\ a \in {"GAZ","EBG"}                 -> FALSE  \* GB11
      [] b = "RI" /\ a = "RI"                                       \* GB12, GB13
                  -> (i - RunStart(s, i, "RI") + 1) % 2 = 0
      [] OTHER                                            -> TRUE   \* GB999
\* boundary offsets 0..Len(s) in order (GB1, GB2: both ends of a non-empty text)
GBounds(s, extended) ==
    IF s = <<>> THEN <<0>>
    ELSE SelectSeq([k \in 1..(Len(s) + 1) |-> k - 1],
                   LAMBDA i : i = 0 \/ i = Len(s) \/ GBreak(s, i, extended))
=============================================================================
