------------------------------- MODULE MCIdna -------------------------------
(* Domain names grow by one token.                                               *)
EXTENDS Idna
CONSTANTS Tokens, MaxLen, Which, EmitOn
A(k) == [i \in 1..k |-> 97]
Tok == <<
  <<97>>, <<46>>, <<45>>, <<65>>, <<49>>, <<95>>,                    \*  1 a  2 .  3 -  4 A  5 digit  6 _ (3V)
  <<12290>>, <<173>>, <<223>>, <<8205>>, <<8800>>, <<168>>,          \*  7 ideographic stop  8 soft hyphen (ignored)  9 sharp s  10 ZWJ  11 # (3V)  12 3M
  <<128>>, <<233>>, <<101>>, <<769>>,                                \* 13 disallowed  14 e acute  15 e  16 acute
  <<1488>>, <<1575>>, <<1633>>, <<8501>>, <<1470>>, <<1456>>,        \* 17 R  18 AL  19 AN  20 maps to R  21 R punctuation  22 NSM
  <<1776>>, <<183>>, <<36>>,                                         \* 23 EN (Persian digit)  24 ON valid  25 ET
  Prefix, <<120,110,45,45,52,100,98>>, <<120,110,45,45,122,99,97>>,  \* 26 prefix  27 alef  28 sharp s
  <<120,110,45,45,57>>, <<88,78,45,45>>, <<120,110,45,45,97,45>>,    \* 29 truncated  30 XN--  31 xn--a-
  <<8491>>, <<65294>>, <<7838>>, <<2765>>, <<65533>>, <<1114111>>,   \* 32 angstrom  33 fullwidth stop  34 capital sharp s  35 virama  36 disallowed
  <<65293>>, <<120,110,45,45,48,108,97>>, <<120,110>>,               \* 38 fullwidth hyphen  39 xn--0la (combining acute)  40 xn
  A(61), A(62), A(63), A(64), <<12452>> >>                           \* 41..44 long  45 katakana
\* where to start: nothing; just under the length limits
Starts == << <<>>, A(63) \o <<46>> \o A(63) \o <<46>> \o A(63) \o <<46>>, A(60) \o <<233>> , <<1488, 46>>, <<97, 46, 1488>> >>
VARIABLES s, n
Init == s = Starts[Which] /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E t \in Tokens : s' = s \o Tok[t]
Spec == Init /\ [][Next]_<<s, n>>
\* what callers rely on
Sound ==
    LET u0 == ToUnicode(s, FALSE)  u1 == ToUnicode(s, TRUE)
        RoundTrip(u, std3) ==
            LET a == ToAscii(s, std3, FALSE, FALSE)  b == ToUnicode(a[2], std3) IN
            a[1] => /\ IsAscii(a[2])
                    /\ ~u.ace => b.ok /\ b.text = u.text
                    /\ ~u.ace => ToAscii(u.text, std3, FALSE, FALSE) = a
    IN /\ u1.ok => u0.ok /\ u1.text = u0.text                  \* STD3 rules only reject
       /\ (u1.ok /\ ~u1.ace) => LET v == ToUnicode(u1.text, TRUE) IN v.ok /\ v.text = u1.text
       /\ RoundTrip(u0, FALSE) /\ RoundTrip(u1, TRUE)
       /\ ToAscii(s, TRUE, FALSE, TRUE)[1] => ToAscii(s, TRUE, FALSE, TRUE) = ToAscii(s, TRUE, FALSE, FALSE)
EmitAll == EmitOn => PrintT(ToString(<<s>> \o Results(s)))
=============================================================================
