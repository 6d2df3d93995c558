------------------------------ MODULE Notation ------------------------------
(* Written forms of a text (code points, UTF-8 and UTF-16 code units, escaped    *)
(* string literals) and the lists the parsers read.  Texts and written forms are *)
(* sequences of code points.                                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Scalar(c) == c \in 0..55295 \/ c \in 57344..1114111
Upper(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Lower(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Hex(_, _)
Hex(n, w) == IF n = 0 /\ w <= 0 THEN <<>> ELSE Append(Hex(n \div 16, w - 1), n % 16)
HexUp(n, w) == LET h == Hex(n, w) IN [i \in 1..Len(h) |-> Upper(h[i])]
HexLow(n) == LET h == Hex(n, 1) IN [i \in 1..Len(h) |-> Lower(h[i])]
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Spaced(ss) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<32>> \o x, <<>>, ss)
Map1(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
\* encoding forms
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Units8(s) == Concat(Map1(Utf8, s))
Units16(s) == Concat(Map1(Utf16, s))
\* writers
NotationOf(c) == <<85, 43>> \o HexUp(c, 4)
Byte(b) == <<48, 120>> \o HexUp(b, 2)
Word(w) == <<48, 120>> \o HexUp(w, 4)
Codepoints(s) == Spaced(Map1(NotationOf, s))
Utf8Hex(s) == Spaced(Map1(Byte, Units8(s)))
Utf16Hex(s) == Spaced(Map1(Word, Units16(s)))
Braces(c) == <<92, 117, 123>> \o HexLow(c) \o <<125>>
EscapeOne(c) == IF c = 9 THEN <<92, 116>> ELSE IF c = 10 THEN <<92, 110>> ELSE IF c = 13 THEN <<92, 114>>
                ELSE IF c \in {34, 39, 92} THEN <<92, c>>
                ELSE IF c \in 32..126 THEN <<c>> ELSE Braces(c)
Quoted(s) == <<34>> \o s \o <<34>>
Escape(s) == Quoted(Concat(Map1(EscapeOne, s)))
EscapeAll(s) == Quoted(Concat(Map1(Braces, s)))

\* reading lists: tokens between separators, each an optional prefix and hexadecimal digits
DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
\* ASCII word characters, and a plus sign in lists of code points; a few others, given as data
WordChar(c, plus) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c = 95 \/ (plus /\ c = 43) \/ c \in {233, 1632}
Tokens(s, plus) == LET t == FoldLeft(LAMBDA a, c : IF WordChar(c, plus) THEN [a EXCEPT ![Len(a)] = Append(@, c)] ELSE Append(a, <<>>), <<<<>>>>, s)
                   IN SelectSeq(t, LAMBDA x : x # <<>>)
Strip(t, plus) == IF Len(t) >= 2 /\ (IF plus THEN t[1] \in {85, 117} /\ t[2] = 43 ELSE t[1] = 48 /\ t[2] \in {88, 120})
                  THEN SubSeq(t, 3, Len(t)) ELSE t
\* the number a token stands for; -1: not a number up to max
Value(t, plus, max) == LET d == Strip(t, plus) IN
    IF d = <<>> THEN -1
    ELSE FoldLeft(LAMBDA a, c : IF a = -1 \/ DigitVal(c) = 99 THEN -1 ELSE IF a * 16 + DigitVal(c) > max THEN -1 ELSE a * 16 + DigitVal(c), 0, d)
Values(s, plus, max) == LET t == Tokens(s, plus) IN [i \in 1..Len(t) |-> Value(t[i], plus, max)]
Fail == <<FALSE, <<>>>>
\* strict decoding of code units: a machine over <<ok, text, lowest allowed next, highest, bits, left>>
D8(m, b) == IF ~m.ok THEN m
    ELSE IF m.left = 0 THEN
        IF b < 128 THEN [m EXCEPT !.out = Append(@, b)]
        ELSE IF b \in 194..223 THEN [m EXCEPT !.v = b - 192, !.left = 1, !.lo = 128, !.hi = 191]
        ELSE IF b \in 224..239 THEN [m EXCEPT !.v = b - 224, !.left = 2, !.lo = IF b = 224 THEN 160 ELSE 128, !.hi = IF b = 237 THEN 159 ELSE 191]
        ELSE IF b \in 240..244 THEN [m EXCEPT !.v = b - 240, !.left = 3, !.lo = IF b = 240 THEN 144 ELSE 128, !.hi = IF b = 244 THEN 143 ELSE 191]
        ELSE [m EXCEPT !.ok = FALSE]
    ELSE IF b \notin m.lo..m.hi THEN [m EXCEPT !.ok = FALSE]
    ELSE IF m.left = 1 THEN [m EXCEPT !.out = Append(@, m.v * 64 + (b - 128)), !.left = 0]
    ELSE [m EXCEPT !.v = @ * 64 + (b - 128), !.left = @ - 1, !.lo = 128, !.hi = 191]
Decode8(u) == LET m == FoldLeft(D8, [ok |-> TRUE, out |-> <<>>, v |-> 0, left |-> 0, lo |-> 0, hi |-> 0], u)
              IN IF m.ok /\ m.left = 0 THEN <<TRUE, m.out>> ELSE Fail
D16(m, w) == IF ~m.ok THEN m
    ELSE IF m.high # 0 THEN IF w \in 56320..57343 THEN [m EXCEPT !.out = Append(@, 65536 + (m.high - 55296) * 1024 + (w - 56320)), !.high = 0]
                            ELSE [m EXCEPT !.ok = FALSE]
    ELSE IF w \in 55296..56319 THEN [m EXCEPT !.high = w]
    ELSE IF w \in 56320..57343 THEN [m EXCEPT !.ok = FALSE]
    ELSE [m EXCEPT !.out = Append(@, w)]
Decode16(u) == LET m == FoldLeft(D16, [ok |-> TRUE, out |-> <<>>, high |-> 0], u) IN IF m.ok /\ m.high = 0 THEN <<TRUE, m.out>> ELSE Fail
\* the parsers, <<ok, text>>
ParseCodepoints(s) == LET v == Values(s, TRUE, 1114111) IN IF \A i \in 1..Len(v) : Scalar(v[i]) THEN <<TRUE, v>> ELSE Fail
ParseUtf8(s) == LET v == Values(s, FALSE, 255) IN IF \E i \in 1..Len(v) : v[i] = -1 THEN Fail ELSE Decode8(v)
ParseUtf16(s) == LET v == Values(s, FALSE, 65535) IN IF \E i \in 1..Len(v) : v[i] = -1 THEN Fail ELSE Decode16(v)

\* reading a string literal with \t \n \r \' \" \\ \0 and \u{...} escapes; any other character stands for itself
Lit(m, c) == IF ~m.ok THEN m
    ELSE CASE m.st = 0 -> IF c = 92 THEN [m EXCEPT !.st = 1] ELSE IF c = 34 THEN [m EXCEPT !.ok = FALSE] ELSE [m EXCEPT !.out = Append(@, c)]
           [] m.st = 1 -> IF c = 117 THEN [m EXCEPT !.st = 2]
                          ELSE IF c \in {34, 39, 92} THEN [m EXCEPT !.st = 0, !.out = Append(@, c)]
                          ELSE IF c = 116 THEN [m EXCEPT !.st = 0, !.out = Append(@, 9)]
                          ELSE IF c = 110 THEN [m EXCEPT !.st = 0, !.out = Append(@, 10)]
                          ELSE IF c = 114 THEN [m EXCEPT !.st = 0, !.out = Append(@, 13)]
                          ELSE IF c = 48 THEN [m EXCEPT !.st = 0, !.out = Append(@, 0)]
                          ELSE [m EXCEPT !.ok = FALSE]
           [] m.st = 2 -> IF c = 123 THEN [m EXCEPT !.st = 3, !.v = 0] ELSE [m EXCEPT !.ok = FALSE]
           [] m.st = 3 -> IF c = 125 THEN [m EXCEPT !.st = 0, !.out = Append(@, m.v)]
                          ELSE IF DigitVal(c) = 99 \/ m.v > 1114111 THEN [m EXCEPT !.ok = FALSE]
                          ELSE [m EXCEPT !.v = @ * 16 + DigitVal(c)]
Unquote(l) == IF Len(l) < 2 \/ l[1] # 34 \/ l[Len(l)] # 34 THEN Fail
    ELSE LET m == FoldLeft(Lit, [ok |-> TRUE, st |-> 0, v |-> 0, out |-> <<>>], SubSeq(l, 2, Len(l) - 1))
         IN IF m.ok /\ m.st = 0 THEN <<TRUE, m.out>> ELSE Fail
\* control and separator characters an escaped literal never contains
Control(c) == c \in 0..31 \/ c \in 127..159 \/ c \in {8232, 8233}
=============================================================================
