---------------------------- MODULE GraphemeDFA ----------------------------
(* The boundary rules as a finite transition system reading one character at a *)
(* time: prev = class of the last character ("" at the start), ri = parity of   *)
(* the regional indicators just read, eb = an emoji base followed only by       *)
(* Extend has just been read.  TLC checks that the decisions are those of       *)
(* GraphemeRules (config with Hist > 0), and emits every transition of the      *)
(* finite system (config with Hist = 0), which the driver replays on the code.  *)
EXTENDS GraphemeRules
CONSTANTS Hist, Alphabet
VARIABLES prev, ri, eb, txt, brk
vars == <<prev, ri, eb, txt, brk>>

Decide(p, r, e, c, extended) ==
    CASE p = ""                                 -> TRUE
      [] p = "CR" /\ c = "LF"                   -> FALSE
      [] p \in Ctl \/ c \in Ctl                 -> TRUE
      [] p = "L" /\ c \in {"L","V","LV","LVT"}  -> FALSE
      [] p \in {"LV","V"} /\ c \in {"V","T"}    -> FALSE
      [] p \in {"LVT","T"} /\ c = "T"           -> FALSE
      [] c \in {"EX","ZWJ"}                     -> FALSE
      [] extended /\ (c = "SM" \/ p = "PP")     -> FALSE
      [] e /\ c = "EM"                          -> FALSE
      [] p = "ZWJ" /\ c \in {"GAZ","EBG"}       -> FALSE
      [] p = "RI" /\ c = "RI"                   -> ~r
      [] OTHER                                  -> TRUE
Ri(c)  == c = "RI" /\ ~(prev = "RI" /\ ri)      \* TRUE: an odd number so far
Eb(c)  == c \in {"EB","EBG"} \/ (c = "EX" /\ eb)

Init == prev = "" /\ ri = FALSE /\ eb = FALSE /\ txt = <<>> /\ brk = <<>>
Read(c) ==
    /\ Hist = 0 \/ Len(txt) < Hist
    /\ prev' = c /\ ri' = Ri(c) /\ eb' = Eb(c)
    /\ IF Hist = 0 THEN UNCHANGED <<txt, brk>>
       ELSE /\ txt' = Append(txt, c)
            /\ brk' = Append(brk, <<Decide(prev, ri, eb, c, TRUE), Decide(prev, ri, eb, c, FALSE)>>)
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

Refines == \A i \in 2..Len(txt) :
    /\ brk[i][1] = GBreak(txt, i - 1, TRUE)
    /\ brk[i][2] = GBreak(txt, i - 1, FALSE)
\* properties of the rules themselves
LegacyRefinesExtended == \A i \in 2..Len(txt) : brk[i][1] => brk[i][2]
NeverInsideCRLF == \A i \in 2..Len(txt) : txt[i-1] = "CR" /\ txt[i] = "LF" => ~brk[i][2]
\* reading may restart after any break except inside a regional indicator run context:
\* the boundaries of a suffix starting at a boundary are those of the text
SuffixClosed == \A i \in 2..Len(txt) : brk[i][1] =>
    \A j \in i..(Len(txt) - 1) :
        GBreak(txt, j, TRUE) = GBreak(SubSeq(txt, i, Len(txt)), j - i + 1, TRUE)

Code == [c \in GClasses |-> CHOOSE i \in 1..Len(GSeq) : GSeq[i] = c]
Num(p, r, e) == (IF p = "" THEN 0 ELSE Code[p]) * 4 + (IF r THEN 2 ELSE 0) + (IF e THEN 1 ELSE 0)
B(x) == IF x THEN 1 ELSE 0
EmitAll == \A c \in Alphabet :
    PrintT(ToString(<<Num(prev, ri, eb), Code[c], B(Decide(prev, ri, eb, c, TRUE)),
                      B(Decide(prev, ri, eb, c, FALSE)), Num(c, Ri(c), Eb(c))>>))
=============================================================================
