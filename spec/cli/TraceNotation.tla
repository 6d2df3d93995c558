---------------------------- MODULE TraceNotation ----------------------------
(* Recorded written forms, validated: each is the form the specification writes, *)
(* reads back as the text, and the parsers of the code agree.                    *)
EXTENDS Notation
T == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Block
VARIABLES k
r == T[k]
Text == IF r.kind = "block" THEN [i \in 1..(r.hi - r.lo + 1) |-> r.lo + i - 1] ELSE r.s
Bad == LET s == Text IN
    IF r.kind = "echo" THEN     \* the tool: in: format read, out: format written, input, got, ok
        LET p == IF r.in = 0 THEN <<TRUE, s>> ELSE IF r.in = 1 THEN ParseCodepoints(s) ELSE IF r.in = 2 THEN ParseUtf8(s) ELSE ParseUtf16(s)
            t == p[2]
            w == CASE r.out = 0 -> t [] r.out = 1 -> Codepoints(t) [] r.out = 2 -> Utf8Hex(t) [] r.out = 3 -> Utf16Hex(t)
                   [] r.out = 4 -> Escape(t) [] r.out = 5 -> EscapeAll(t) [] r.out = 6 -> r.got
            nl == IF r.nl = 1 THEN <<10>> ELSE <<>>
        IN IF ~p[1] THEN (IF r.ok = 1 THEN {20} ELSE {})
           ELSE IF r.ok = 0 THEN {21}
           ELSE IF r.out = 6 THEN (IF Unquote(SubSeq(r.got, 1, Len(r.got) - r.nl)) = <<TRUE, t>> THEN {} ELSE {22})
           ELSE IF r.got = w \o nl THEN {} ELSE {23}
    ELSE IF r.kind = "list" THEN     \* a list in some spelling and what its parser answered
        LET p == IF r.p = 1 THEN ParseCodepoints(s) ELSE IF r.p = 2 THEN ParseUtf8(s) ELSE ParseUtf16(s)
        IN (IF p[1] # (r.ok = 1) THEN {30} ELSE {}) \cup (IF p[1] /\ r.ok = 1 /\ p[2] # r.got THEN {31} ELSE {})
    ELSE (IF r.cp # Codepoints(s) THEN {1} ELSE {}) \cup (IF r.u8 # Utf8Hex(s) THEN {2} ELSE {})
      \cup (IF r.u16 # Utf16Hex(s) THEN {3} ELSE {}) \cup (IF r.esc # Escape(s) THEN {4} ELSE {})
      \cup (IF r.all # EscapeAll(s) THEN {5} ELSE {})
      \cup (IF Unquote(r.ctl) # <<TRUE, s>> \/ \E i \in 1..Len(r.ctl) : Control(r.ctl[i]) THEN {6} ELSE {})
      \cup (IF r.back # 1 THEN {7} ELSE {})
      \cup (IF r.kind = "block" /\ r.note # r.cp THEN {8} ELSE {})
Check == LET b == Bad IN IF b = {} THEN TRUE ELSE PrintT(ToString(<<"MISMATCH", "L01", k, b>>))
Init == k \in {1 + Block * b : b \in 0..((Len(T) - 1) \div Block)}
Next == k % Block # 0 /\ k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
