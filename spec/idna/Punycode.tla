------------------------------ MODULE Punycode ------------------------------
(* RFC 3492: the Bootstring encoding with Punycode's parameters, over code       *)
(* points.  Arithmetic is that of the integers: a delta that would take the code *)
(* point past U+10FFFF is rejected at once, so nothing grows beyond the limits   *)
(* below (texts of up to 1800 characters).                                       *)
EXTENDS Integers, Sequences, SequencesExt
Base == 36  TMin == 1  TMax == 26  Skew == 38  Damp == 700  Bias0 == 72  N0 == 128
MaxCP == 1114111
IsScalar(c) == c \in 0..55295 \/ c \in 57344..MaxCP
RECURSIVE AdaptK(_, _)
AdaptK(d, k) == IF d > 455 THEN AdaptK(d \div 35, k + 36) ELSE k + (36 * d) \div (d + Skew)
Adapt(delta, points, first) ==
    LET d == IF first THEN delta \div Damp ELSE delta \div 2
    IN AdaptK(d + d \div points, 0)
Threshold(k, bias) == IF k <= bias THEN TMin ELSE IF k >= bias + TMax THEN TMax ELSE k - bias
DigitOf(b) == IF b \in 48..57 THEN b - 48 + 26 ELSE IF b \in 65..90 THEN b - 65 ELSE IF b \in 97..122 THEN b - 97 ELSE 99
CharOf(d) == IF d < 26 THEN 97 + d ELSE 48 + (d - 26)

\* ---- decoding: a machine that reads one code point of the extended part at a time
Fail == [ok |-> FALSE]
PutAt(s, i, c) == SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s))
PStep(m, b) ==
    IF ~m.ok THEN m
    ELSE LET d == DigitOf(b)
             limit == (MaxCP - m.n + 1) * (Len(m.out) + 1)        \* i may not reach this
             t == Threshold(m.k, m.bias)
             i2 == m.i + d * m.w
         IN IF d = 99 THEN Fail
            ELSE IF d > (limit - m.i) \div m.w THEN Fail
            ELSE IF d >= t THEN [m EXCEPT !.i = i2, !.k = @ + Base, !.mid = TRUE,
                                  \* a weight past the limit stays past it
                                  !.w = IF @ > limit \div (Base - t) THEN limit + 1 ELSE @ * (Base - t)]
            ELSE LET len == Len(m.out) + 1
                     c == m.n + i2 \div len
                     at == i2 % len
                 IN IF ~IsScalar(c) THEN Fail
                    ELSE [ok |-> TRUE, out |-> PutAt(m.out, at, c), n |-> c, i |-> at + 1, old |-> at + 1,
                          bias |-> Adapt(i2 - m.old, len, m.old = 0), k |-> Base, w |-> 1, mid |-> FALSE]
LastDash(s) == LET d == {i \in 1..Len(s) : s[i] = 45} IN IF d = {} THEN 0 ELSE CHOOSE i \in d : \A j \in d : j <= i
\* <<ok, text>>
Decode(s) ==
    LET d == LastDash(s)
        basic == SubSeq(s, 1, d - 1)
        rest == IF d > 1 THEN SubSeq(s, d + 1, Len(s)) ELSE s
        start == [ok |-> TRUE, out |-> basic, n |-> N0, i |-> 0, old |-> 0, bias |-> Bias0, k |-> Base, w |-> 1, mid |-> FALSE]
        m == FoldLeft(PStep, start, rest)
    IN IF \E i \in 1..Len(basic) : basic[i] >= 128 THEN <<FALSE, <<>>>>
       ELSE IF ~m.ok THEN <<FALSE, <<>>>>
       ELSE IF m.mid THEN <<FALSE, <<>>>>
       ELSE <<TRUE, m.out>>

\* ---- encoding
RECURSIVE Digits(_, _, _, _)
Digits(o, q, k, bias) == LET t == Threshold(k, bias) IN
    IF q < t THEN Append(o, CharOf(q))
    ELSE Digits(Append(o, CharOf(t + ((q - t) % (Base - t)))), (q - t) \div (Base - t), k + Base, bias)
RECURSIVE EncodeFrom(_, _, _, _, _, _, _)
EncodeFrom(s, o, n, delta, bias, h, b) ==
    IF h = Len(s) THEN o
    ELSE LET later == {s[i] : i \in {j \in 1..Len(s) : s[j] >= n}}
             m == CHOOSE x \in later : \A y \in later : x <= y
             \* one pass over the text for the code point m
             st == FoldLeft(LAMBDA a, c :
                       IF c < m THEN [a EXCEPT !.d = @ + 1]
                       ELSE IF c = m THEN [o |-> Digits(a.o, a.d, Base, a.b), d |-> 0,
                                           b |-> Adapt(a.d, a.h + 1, a.h = b), h |-> a.h + 1]
                       ELSE a,
                       [o |-> o, d |-> delta + (m - n) * (h + 1), b |-> bias, h |-> h], s)
         IN EncodeFrom(s, st.o, m + 1, st.d + 1, st.b, st.h, b)
IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128
Encode(s) ==
    LET basic == SelectSeq(s, LAMBDA c : c < 128)
        b == Len(basic)
    IN EncodeFrom(s, basic \o (IF b > 0 THEN <<45>> ELSE <<>>), N0, 0, Bias0, b, b)
=============================================================================
