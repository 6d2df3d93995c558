-------------------------------- MODULE Idna --------------------------------
(* UTS #46 processing, ToUnicode and ToASCII over code points.  Criteria V2      *)
(* (hyphens in positions 3 and 4) and V7 (joiner contexts) are outside the       *)
(* specified behaviour: the library documents that it does not check them.       *)
EXTENDS Normal, Punycode
RefI == ndJsonDeserialize(IOEnv.UCD_REF \o "/idna.ndjson")
IdnaValues == RefI[1].values
IdnaIndex == RefI[1].index  IdnaPages == RefI[1].pages
BcIndex == RefI[2].index    BcPages == RefI[2].pages
MarkIndex == RefI[3].index  MarkPages == RefI[3].pages
At(index, pages, c) == pages[index[(c \div 256) + 1]][(c % 256) + 1]
Mapping(c) == IdnaValues[At(IdnaIndex, IdnaPages, c)]
Bc(c) == At(BcIndex, BcPages, c)
IsMark(c) == At(MarkIndex, MarkPages, c) = 1
\* statuses
Valid == 1  Ignored == 2  Mapped == 3  Deviation == 4  Disallowed == 5  Std3Valid == 6  Std3Mapped == 7
\* Bidi classes, in the order of the reference
L == 1  R == 2  AL == 3  EN == 4  AN == 5  ES == 6  ET == 7  CS == 8  NSM == 9  BN == 10  ON == 14
Rtl == {R, AL, AN}
Dot == 46  Hyphen == 45
Prefix == <<120, 110, 45, 45>>

\* 1. map: <<text, an error was recorded>>
MapOne(c, std3, trans) ==
    LET m == Mapping(c) IN
    CASE m[1] = Valid -> <<<<c>>, FALSE>>
      [] m[1] = Ignored -> <<<<>>, FALSE>>
      [] m[1] = Mapped -> <<m[2], FALSE>>
      [] m[1] = Deviation -> <<IF trans THEN m[2] ELSE <<c>>, FALSE>>
      [] m[1] = Disallowed -> <<<<c>>, TRUE>>
      [] m[1] = Std3Valid -> <<<<c>>, std3>>
      [] m[1] = Std3Mapped -> <<IF std3 THEN <<c>> ELSE m[2], std3>>
Map(s, std3, trans) == FoldLeft(LAMBDA a, c : LET m == MapOne(c, std3, trans) IN <<a[1] \o m[1], a[2] \/ m[2]>>, <<<<>>, FALSE>>, s)

\* 3. break at U+002E: at least one label
Split(s) == FoldLeft(LAMBDA a, c : IF c = Dot THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, c)], <<<<>>>>, s)
Join(ls) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN <<>> ELSE <<Dot>>) \o ls[i], <<>>, [i \in 1..Len(ls) |-> i])

IsAce(l) == Len(l) >= 4 /\ SubSeq(l, 1, 4) = Prefix
Rest(l) == SubSeq(l, 5, Len(l))

\* 4. validity criteria of a label, the numbers of those that fail
RECURSIVE LastBase(_, _)
LastBase(l, i) == IF i = 0 THEN 0 ELSE IF Bc(l[i]) = NSM THEN LastBase(l, i - 1) ELSE i
BidiRule(l) ==
    LET cl == {Bc(l[i]) : i \in 1..Len(l)}
        last == LastBase(l, Len(l))
    IN CASE Bc(l[1]) \in {R, AL} ->
              /\ cl \subseteq {R, AL, AN, EN, ES, CS, ET, ON, BN, NSM}      \* 2
              /\ last # 0 /\ Bc(l[last]) \in {R, AL, EN, AN}                \* 3
              /\ ~({EN, AN} \subseteq cl)                                   \* 4
         [] Bc(l[1]) = L ->
              /\ cl \subseteq {L, EN, ES, CS, ET, ON, BN, NSM}              \* 5
              /\ last # 0 /\ Bc(l[last]) \in {L, EN}                        \* 6
         [] OTHER -> FALSE                                                  \* 1
StatusOk(c, std3, trans) == LET k == Mapping(c)[1] IN
    k = Valid \/ (k = Deviation /\ ~trans) \/ (k = Std3Valid /\ ~std3)
Failing(l, bidi, std3, trans) ==
    IF l = <<>> THEN {}
    ELSE (IF NFC(l) # l THEN {1} ELSE {})
      \cup (IF l[1] = Hyphen \/ l[Len(l)] = Hyphen THEN {3} ELSE {})
      \cup (IF IsMark(l[1]) THEN {5} ELSE {})
      \cup (IF \E i \in 1..Len(l) : ~StatusOk(l[i], std3, trans) THEN {6} ELSE {})
      \cup (IF bidi /\ ~BidiRule(l) THEN {8} ELSE {})

\* Processing: [text, ok, ls (the labels), ace (some label was decoded to a text that itself looks encoded)]
HasRtl(s) == \E i \in 1..Len(s) : Bc(s[i]) \in Rtl
Process(s, std3, trans) ==
    LET m == Map(s, std3, trans)
        ls == Split(NFC(m[1]))
        dec == [i \in 1..Len(ls) |-> IF IsAce(ls[i]) THEN Decode(Rest(ls[i])) ELSE <<TRUE, ls[i]>>]
        out == [i \in 1..Len(ls) |-> IF dec[i][1] THEN dec[i][2] ELSE ls[i]]
        bidi == \E i \in 1..Len(ls) : HasRtl(out[i])
        bad == [i \in 1..Len(ls) |-> IF dec[i][1] THEN Failing(out[i], bidi, std3, IF IsAce(ls[i]) THEN FALSE ELSE trans) ELSE {4}]
    IN [text |-> Join(out), ok |-> ~m[2] /\ \A i \in 1..Len(ls) : bad[i] = {},
        out |-> out,
        ace |-> \E i \in 1..Len(ls) : IsAce(ls[i]) /\ dec[i][1] /\ IsAce(out[i])]

ToUnicode(s, std3) == LET p == Process(s, std3, FALSE) IN [text |-> p.text, ok |-> p.ok, ace |-> p.ace]

EncodeLabel(l) == IF IsAscii(l) THEN l ELSE Prefix \o Encode(l)
DnsOk(s) ==
    LET d == IF s # <<>> /\ s[Len(s)] = Dot THEN SubSeq(s, 1, Len(s) - 1) ELSE s
        ls == Split(d)
    IN Len(d) \in 1..253 /\ \A i \in 1..Len(ls) : Len(ls[i]) \in 1..63
\* <<ok, text>>, from the result of processing
AsciiOf(p, dns) ==
    LET ls == Split(p.text)
        t == Join([i \in 1..Len(ls) |-> EncodeLabel(ls[i])])
    IN IF p.ok /\ (dns => DnsOk(t)) THEN <<TRUE, t>> ELSE <<FALSE, <<>>>>
ToAscii(s, std3, trans, dns) == AsciiOf(Process(s, std3, trans), dns)

\* all the results: ToUnicode without and with STD3 rules, then ToASCII for std3 x trans x dns
Results(s) ==
    LET u0 == Process(s, FALSE, FALSE)  u1 == Process(s, TRUE, FALSE)
        t0 == Process(s, FALSE, TRUE)   t1 == Process(s, TRUE, TRUE)
    IN << <<u0.ok, u0.text>>, <<u1.ok, u1.text>>,
          AsciiOf(u0, FALSE), AsciiOf(u0, TRUE), AsciiOf(t0, FALSE), AsciiOf(t0, TRUE),
          AsciiOf(u1, FALSE), AsciiOf(u1, TRUE), AsciiOf(t1, FALSE), AsciiOf(t1, TRUE) >>
=============================================================================
