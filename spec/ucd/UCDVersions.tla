----------------------------- MODULE UCDVersions -----------------------------
(* Version numbers: triples ordered by major, then minor, then update; printed   *)
(* with dots.  All components report one version, that of the newest age, and    *)
(* the versions tool prints them.                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Block
VARIABLES k
r == T[k]
Unicode == <<10, 0, 0>>
Emoji == <<5, 0, 0>>

Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Cmp(a, b) == IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1
B(x) == IF x THEN 1 ELSE 0
Dotted(a) == ToString(a[1]) \o "." \o ToString(a[2]) \o "." \o ToString(a[3])
Pair == LET c == Cmp(r.a, r.b) IN
    /\ r.cmp = c /\ r.partial = c
    /\ r.ops = <<B(c < 0), B(c <= 0), B(c > 0), B(c >= 0), B(c = 0), B(c # 0)>>
    /\ r.max = (IF c <= 0 THEN r.b ELSE r.a) /\ r.min = (IF c <= 0 THEN r.a ELSE r.b)
    /\ (c = 0 => r.hash = 1)
\* a triple converted to a version, its fields, its printed form, and back
Conv == r.fields = r.a /\ r.shown = Dotted(r.a) /\ r.literal = 1
Sorted == \A i \in 1..(Len(r.vs) - 1) : Cmp(r.vs[i], r.vs[i + 1]) <= 0
Own == r.v = (IF r.what = "emoji" THEN Emoji ELSE Unicode)
Newest == r.age = Unicode
\* the tool: the packages in order, each with its own name, description, package version and data version
Section(p) == << "Component: " \o p.desc, "Package: " \o p.name \o " (" \o p.pkg \o ")" >>
              \o (IF p.data = "none" THEN <<>>
                  ELSE << (IF p.data = "emoji" THEN "Emoji Version: " ELSE "Unicode Version: ")
                          \o Dotted(IF p.data = "emoji" THEN Emoji ELSE Unicode) >>)
Expected == << "UNIC: Unicode and Internationalization Crates for Rust", "Package: unic (" \o r.pkg \o ")", "" >>
            \o FoldLeft(LAMBDA a, p : a \o Section(p) \o <<"">>, <<>>, r.packages)
Tool == r.ok = 1 /\ r.lines = Expected
Ok == CASE r.kind = "pair" -> Pair
        [] r.kind = "conv" -> Conv
        [] r.kind = "sorted" -> Sorted
        [] r.kind = "own" -> Own
        [] r.kind = "newest" -> Newest
        [] r.kind = "tool" -> Tool
Check == IF Ok THEN TRUE ELSE PrintT(ToString(<<"MISMATCH", "T07", k>>))
Init == k \in {1 + Block * b : b \in 0..((Len(T) - 1) \div Block)}
Next == k % Block # 0 /\ k < Len(T) /\ k' = k + 1
Spec == Init /\ [][Next]_k
V == {<<x, y, z>> : x \in 0..2, y \in 0..2, z \in 0..1}
ASSUME \A a, b, c \in V : Cmp(a, b) = -Cmp(b, a) /\ (Cmp(a, b) < 0 /\ Cmp(b, c) < 0 => Cmp(a, c) < 0)
ASSUME \A a, b \in V : Dotted(a) = Dotted(b) => a = b
=============================================================================
