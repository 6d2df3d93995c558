------------------------------ MODULE WordDFA ------------------------------
(* The word rules as a finite transducer with delayed output.  raw = class of   *)
(* the last character, e1 / e2 = classes of the last two non-ignored characters,*)
(* ri = odd number of regional indicators, pend = "" or the class a following    *)
(* character must have for the last non-decided position to be joined ("AHL",    *)
(* "HL", "NU").  Reading a character outputs the decision for the boundary       *)
(* before it (or defers it) and may settle the deferred one.                     *)
EXTENDS WordRules
CONSTANTS Hist, Alphabet
VARIABLES raw, e1, e2, ri, pend, txt, brk, pos
vars == <<raw, e1, e2, ri, pend, txt, brk, pos>>

IsIgn(c) == c \in Ign /\ raw # "" /\ raw \notin NLs
\* the class that must follow c (after ignoring) to join c to what precedes it; "" if decided now
Defer(c) == CASE raw = "" -> ""
              [] raw \in NLs -> ""
              [] raw = "ZWJ" /\ c \in {"GAZ","EBG"} -> ""
              [] e1 = "HL" /\ c = "SQ" -> ""                  \* WB7a joins at once
              [] e1 \in AHL /\ c \in MidL -> "AHL"
              [] e1 = "HL" /\ c = "DQ" -> "HL"
              [] e1 = "NU" /\ c \in MidN -> "NU"
              [] OTHER -> ""
Meets(c) == CASE pend = "AHL" -> c \in AHL
              [] pend = "HL" -> c = "HL"
              [] pend = "NU" -> c = "NU"
              [] OTHER -> FALSE
\* boundary before c, when not deferred
Decide(c) ==
    CASE raw = ""                                  -> TRUE
      [] raw = "CR" /\ c = "LF"                    -> FALSE
      [] raw \in NLs \/ c \in NLs                  -> TRUE
      [] raw = "ZWJ" /\ c \in {"GAZ","EBG"}        -> FALSE
      [] c \in Ign                                 -> FALSE
      [] e1 \in AHL /\ c \in AHL                   -> FALSE
      [] e2 \in AHL /\ e1 \in MidL /\ c \in AHL    -> FALSE
      [] e1 = "HL" /\ c = "SQ"                     -> FALSE
      [] e2 = "HL" /\ e1 = "DQ" /\ c = "HL"        -> FALSE
      [] e1 = "NU" /\ c = "NU"                     -> FALSE
      [] e1 \in AHL /\ c = "NU"                    -> FALSE
      [] e1 = "NU" /\ c \in AHL                    -> FALSE
      [] e2 = "NU" /\ e1 \in MidN /\ c = "NU"      -> FALSE
      [] e1 = "KA" /\ c = "KA"                     -> FALSE
      [] e1 \in AHL \cup {"NU","KA","EX"} /\ c = "EX" -> FALSE
      [] e1 = "EX" /\ c \in AHL \cup {"NU","KA"}   -> FALSE
      [] e1 \in {"EB","EBG"} /\ c = "EM"           -> FALSE
      [] e1 = "RI" /\ c = "RI"                     -> ~ri
      [] OTHER                                     -> TRUE

\* context is only remembered where a rule can look at it
Ctx2(c, x) == IF c \in MidL \cup MidN \cup {"DQ"} /\ x \in AHL \cup {"NU"} THEN x ELSE ""

Init == raw = "" /\ e1 = "" /\ e2 = "" /\ ri = FALSE /\ pend = "" /\ txt = <<>> /\ brk = <<>> /\ pos = 0
\* next state and outputs as a record
Out(c) ==
    LET ign == IsIgn(c)
        d == IF ign THEN "" ELSE Defer(c)
    IN [raw |-> c,
        e1 |-> IF ign THEN e1 ELSE c,
        e2 |-> IF ign THEN e2 ELSE Ctx2(c, IF raw \in NLs THEN "" ELSE e1),
        ri |-> IF ign THEN ri ELSE c = "RI" /\ ~(e1 = "RI" /\ ri /\ raw \notin NLs),
        pend |-> IF ign THEN pend ELSE d,
        \* 0 joined, 1 boundary, 2 deferred
        cur |-> IF ign THEN 0 ELSE IF d # "" THEN 2 ELSE IF Decide(c) THEN 1 ELSE 0,
        \* settles the deferred position: 0 joined, 1 boundary, 2 still open or none
        prev |-> IF pend = "" \/ ign THEN 2 ELSE IF Meets(c) THEN 0 ELSE 1]
Read(c) ==
    /\ Hist = 0 \/ Len(txt) < Hist
    /\ LET o == Out(c) IN
       /\ raw' = o.raw /\ e1' = o.e1 /\ e2' = o.e2 /\ ri' = o.ri /\ pend' = o.pend
       /\ IF Hist = 0 THEN UNCHANGED <<txt, brk, pos>>
          ELSE /\ txt' = Append(txt, c)
               /\ brk' = Append(IF o.prev = 2 THEN brk ELSE [brk EXCEPT ![pos] = o.prev], o.cur)
               /\ pos' = IF o.cur = 2 THEN Len(txt) + 1 ELSE pos
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

\* a decision still deferred at the end of the text is a boundary
Final(x) == x # 0
Refines == \A i \in 2..Len(txt) : Final(brk[i]) = WBreak(txt, i - 1)
\* rules: segments of a suffix that starts at a boundary are those of the text (W02 relies on it)
SuffixClosed == \A i \in 2..Len(txt) : Final(brk[i]) =>
    \A j \in i..(Len(txt) - 1) : WBreak(txt, j) = WBreak(SubSeq(txt, i, Len(txt)), j - i + 1)
PrefixClosed == \A i \in 2..Len(txt) : Final(brk[i]) =>
    \A j \in 1..(i - 2) : WBreak(txt, j) = WBreak(SubSeq(txt, 1, i - 1), j)
NeverInsideCRLF == \A i \in 2..Len(txt) : txt[i-1] = "CR" /\ txt[i] = "LF" => brk[i] = 0

Code == [c \in WClasses |-> CHOOSE i \in 1..Len(WSeq) : WSeq[i] = c]
C0(c) == IF c = "" THEN 0 ELSE Code[c]
P0(p) == CASE p = "" -> 0 [] p = "AHL" -> 1 [] p = "HL" -> 2 [] OTHER -> 3
Num(r, x1, x2, i, p) == (((C0(r) * 32 + C0(x1)) * 32 + C0(x2)) * 2 + (IF i THEN 1 ELSE 0)) * 4 + P0(p)
EmitAll == \A c \in Alphabet : LET o == Out(c) IN
    PrintT(ToString(<<Num(raw, e1, e2, ri, pend), Code[c], o.cur, o.prev,
                      Num(o.raw, o.e1, o.e2, o.ri, o.pend)>>))
=============================================================================
