----------------------------- MODULE MCNotation -----------------------------
(* Texts grow by one character and are written; or lists grow by one token and   *)
(* are parsed.                                                                   *)
EXTENDS Notation
CONSTANTS Alphabet, MaxLen, Mode, EmitOn      \* Mode: 0 write, 1 code points, 2 UTF-8, 3 UTF-16
\* separators and tokens of lists
Seps == << <<>>, <<32>>, <<44>>, <<59, 32>>, <<9>>, <<45>>, <<8212>>, <<43>> >>
Pool == <<  \* code points
    << <<85,43,48,48,52,49>>, <<117,43,101,57>>, <<52,49>>, <<48,48,48,48,48,48,52,49>>, <<85,43,68,55,70,70>>, <<85,43,68,56,48,48>>, <<85,43,68,70,70,70>>,
       <<85,43,49,48,70,70,70,70>>, <<85,43,49,49,48,48,48,48>>, <<48>>, <<48,120,52,49>>, <<85,43>>, <<95>>, <<71>>, <<85,43,69,48,48,48>>, <<233>> >>,
    << <<48,120,52,49>>, <<99,51>>, <<48,88,97,57>>, <<69,68>>, <<57,70>>, <<97,48>>, <<56,48>>, <<48,120,66,70>>, <<101,50>>, <<70,48>>, <<57,48>>, <<70,52>>,
       <<56,70>>, <<70,53>>, <<67,49>>, <<49,48,48>>, <<48,120>>, <<48>>, <<120>>, <<85,43,52,49>>, <<69,48>>, <<67,50>> >>,
    << <<48,120,48,48,52,49>>, <<100,56,51,52>>, <<48,88,68,68,49,69>>, <<68,66,70,70>>, <<68,70,70,70>>, <<68,55,70,70>>, <<69,48,48,48>>, <<70,70,70,70>>,
       <<49,48,48,48,48>>, <<48>>, <<48,120>>, <<85,43,52,49>> >> >>
VARIABLES s, n
Init == s = <<>> /\ n = 0
Grow == IF Mode = 0 THEN \E c \in Alphabet : s' = Append(s, c)
        ELSE \E k \in 1..Len(Pool[Mode]), p \in Alphabet : s' = s \o Seps[p] \o Pool[Mode][k]
Next == n < MaxLen /\ n' = n + 1 /\ Grow
Spec == Init /\ [][Next]_<<s, n>>
Parse == IF Mode = 1 THEN ParseCodepoints(s) ELSE IF Mode = 2 THEN ParseUtf8(s) ELSE ParseUtf16(s)
RoundTrip == Mode = 0 =>
    /\ ParseCodepoints(Codepoints(s)) = <<TRUE, s>>
    /\ ParseUtf8(Utf8Hex(s)) = <<TRUE, s>>
    /\ ParseUtf16(Utf16Hex(s)) = <<TRUE, s>>
    /\ Unquote(Escape(s)) = <<TRUE, s>> /\ Unquote(EscapeAll(s)) = <<TRUE, s>>
\* what parses is a text, and its written form parses to it
Sound == (Mode # 0 /\ Parse[1]) => /\ \A i \in 1..Len(Parse[2]) : Scalar(Parse[2][i])
                                   /\ ParseCodepoints(Codepoints(Parse[2])) = Parse
EmitAll == EmitOn => PrintT(ToString(IF Mode = 0 THEN <<0, s, Codepoints(s), Utf8Hex(s), Utf16Hex(s), Escape(s), EscapeAll(s)>>
                                     ELSE <<Mode, s, Parse[1], Parse[2]>>))
=============================================================================
