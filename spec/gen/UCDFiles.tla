------------------------------ MODULE UCDFiles ------------------------------
(* What the Unicode data files say, and what each generated table has to denote.  *)
(* A data set d is a record of lists of lines:                                     *)
(*   ud     records [c, e, nm, gc, cc, bc, dt, dm, mi]: code points c..e (one line, *)
(*          or a First/Last pair), pieces of the name (empty: no name, a label)     *)
(*   core, plist, emoji    <<lo, hi, property>>                                     *)
(*   age <<lo, hi, major, minor, micro>>   blocks, gcb, wb, sb <<lo, hi, value>>    *)
(*   jamo <<c, name>>  aliases <<c, alias, type>>  excl <<lo, hi>>                  *)
(*   idna <<lo, hi, status, mapping>>   nt  <<source, nfc, nfd, nfkc, nfkd>>        *)
(*   gt, wt   records [c, g, b, r] of a break test: characters, classes, breaks,    *)
(*          rules                                                                   *)
(* A table is a partial function from characters, given as a set of pairs; values   *)
(* are texts (lists joined by a blank or a bar).                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Scalars(lo, hi) == (lo..hi) \ (55296..57343)
Join(s, sep) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, s[1], Tail(s))
Nums(s) == Join([i \in 1..Len(s) |-> ToString(s[i])], " ")
\* the pairs of lines lo..hi with a value
Pairs(ls, V(_)) == UNION {{<<c, V(ls[i])>> : c \in Scalars(ls[i][1], ls[i][2])} : i \in 1..Len(ls)}
Where(ls, p) == UNION {{<<c, "()">> : c \in Scalars(ls[i][1], ls[i][2])} : i \in {j \in 1..Len(ls) : ls[j][3] = p}}
UD(d, P(_), V(_)) == UNION {{<<c, V(d.ud[i])>> : c \in Scalars(d.ud[i].c, d.ud[i].e)} : i \in {j \in 1..Len(d.ud) : P(d.ud[j])}}
Unit(x) == "()"
All(x) == TRUE

\* ---- Bidi_Class: what the data lists, else the default of the area (DerivedBidiClass.txt)
BidiDefaults == << <<1536, 1983, "AL">>, <<2208, 2303, "AL">>, <<64336, 64975, "AL">>, <<65008, 65023, "AL">>,
                   <<65136, 65279, "AL">>, <<126464, 126719, "AL">>, <<1424, 1535, "R">>, <<1984, 2207, "R">>,
                   <<64285, 64335, "R">>, <<67584, 69631, "R">>, <<124928, 126463, "R">>, <<126720, 126975, "R">>,
                   <<8352, 8399, "ET">> >>
BidiClass(d) ==
    LET listed == UD(d, All, LAMBDA u : u.bc)
        known == {x[1] : x \in listed}
    IN listed \cup UNION {{<<c, BidiDefaults[i][3]>> : c \in (BidiDefaults[i][1]..BidiDefaults[i][2]) \ known} : i \in 1..Len(BidiDefaults)}

\* ---- normalization data
Canon(u) == u.dt = "" /\ u.dm # <<>>
Compat(u) == u.dt # "" /\ u.dm # <<>>
\* the name of the type in the library
TypeNames == [font |-> "Font", noBreak |-> "Nobreak", initial |-> "Initial", medial |-> "Medial", final |-> "Final",
              isolated |-> "Isolated", circle |-> "Circle", super |-> "Super", sub |-> "Sub", vertical |-> "Vertical",
              wide |-> "Wide", narrow |-> "Narrow", small |-> "Small", square |-> "Square", fraction |-> "Fraction", compat |-> "Compat"]
Excluded(d) == UNION {Scalars(d.excl[i][1], d.excl[i][2]) : i \in 1..Len(d.excl)}
\* primary composites: <<first, second, composite>>
Composites(d) ==
    LET ex == Excluded(d) IN
    UNION {{<<d.ud[i].dm[1], d.ud[i].dm[2], c>> : c \in Scalars(d.ud[i].c, d.ud[i].e) \ ex}
           : i \in {j \in 1..Len(d.ud) : Canon(d.ud[j]) /\ Len(d.ud[j].dm) = 2}}
Compositions(d) ==
    LET cs == Composites(d)
        Of(f) == LET s == SetToSortSeq({x \in cs : x[1] = f}, LAMBDA x, y : x[2] < y[2])
                 IN Join([i \in 1..Len(s) |-> ToString(s[i][2]) \o " " \o ToString(s[i][3])], "|")
    IN {<<f, Of(f)>> : f \in {x[1] : x \in cs}}

\* ---- name aliases
AliasTypes == [correction |-> "NameCorrections", control |-> "ControlCodeNames", alternate |-> "AlternateNames",
               figment |-> "Figments", abbreviation |-> "NameAbbreviations"]
\* the distinct elements in order of first appearance
Distinct(s) == FoldLeft(LAMBDA a, x : IF \E i \in 1..Len(a) : a[i] = x THEN a ELSE Append(a, x), <<>>, s)
Aliases(d, t) == {<<c, Join(Distinct([i \in 1..Len(SelectSeq(d.aliases, LAMBDA x : x[1] = c /\ x[3] = t)) |->
                                      SelectSeq(d.aliases, LAMBDA x : x[1] = c /\ x[3] = t)[i][2]]), "|")>>
                  : c \in {x[1] : x \in {y \in ToSet(d.aliases) : y[3] = t}}}
TypesOf(d) == {<<c, LET own == SelectSeq(d.aliases, LAMBDA x : x[1] = c)
                    IN Join(Distinct([i \in 1..Len(own) |-> AliasTypes[own[i][3]]]), "|")>>
               : c \in {x[1] : x \in ToSet(d.aliases)}}

\* ---- IDNA
StatusNames == [valid |-> "Valid", ignored |-> "Ignored", mapped |-> "Mapped", deviation |-> "Deviation", disallowed |-> "Disallowed",
                disallowed_STD3_valid |-> "DisallowedStd3Valid", disallowed_STD3_mapped |-> "DisallowedStd3Mapped"]
IdnaValue(l) == IF l[3] \in {"mapped", "deviation", "disallowed_STD3_mapped"}
                THEN StatusNames[l[3]] \o "(" \o Nums(l[4]) \o ")" ELSE StatusNames[l[3]]

\* ---- conformance test data: lists, in the order of the file
NormTest(t) == Join([i \in 1..5 |-> Nums(t[i])], ";")
\* the pieces of s cut where cut[i] holds between i and i+1
Cut(s, cut) == LET r == FoldLeft(LAMBDA a, i : IF i > 1 /\ cut[i - 1] THEN [done |-> Append(a.done, Nums(a.cur)), cur |-> <<s[i]>>]
                                              ELSE [a EXCEPT !.cur = Append(@, s[i])],
                                 [done |-> <<>>, cur |-> <<>>], [i \in 1..Len(s) |-> i])
               IN Join(Append(r.done, Nums(r.cur)), "|")
\* tests with a surrogate are left out
Usable(ts) == SelectSeq(ts, LAMBDA t : \A i \in 1..Len(t.c) : t.c[i] \notin 55296..57343)
Legacy(r) == r \in {"9.1", "9.2"}
GraphemeTest(t) == Nums(t.c) \o ";" \o Cut(t.c, [i \in 1..Len(t.b) |-> t.b[i] = 1]) \o ";" \o
    (IF \E i \in 1..Len(t.r) : Legacy(t.r[i]) THEN Cut(t.c, [i \in 1..Len(t.b) |-> t.b[i] = 1 \/ Legacy(t.r[i])]) ELSE "None")
WordTest(t) == Nums(t.c) \o ";" \o Cut(t.c, [i \in 1..Len(t.b) |-> t.b[i] = 1])
TestClasses(ts) == UNION {{<<ts[i].c[j], ts[i].g[j]>> : j \in 1..Len(ts[i].c)} : i \in 1..Len(ts)}

\* ---- the tables: name |-> kind ("map": characters to values; "list"; "one": a single value) and contents
Numeric(u) == u.gc \in {"Nd", "Nl", "No"}
Mark(u) == u.gc \in {"Mn", "Mc", "Me"}
Core == {"Lowercase", "Uppercase", "Cased", "Case_Ignorable", "Changes_When_Lowercased", "Changes_When_Uppercased",
         "Changes_When_Titlecased", "Changes_When_Casefolded", "Changes_When_Casemapped"}
CaseFile == [Lowercase |-> "lowercase", Uppercase |-> "uppercase", Cased |-> "cased", Case_Ignorable |-> "case_ignorable",
             Changes_When_Lowercased |-> "changes_when_lowercased", Changes_When_Uppercased |-> "changes_when_uppercased",
             Changes_When_Titlecased |-> "changes_when_titlecased", Changes_When_Casefolded |-> "changes_when_casefolded",
             Changes_When_Casemapped |-> "changes_when_casemapped"]
UcdDirs == {"age", "bidi", "block", "case", "category", "common", "version", "hangul", "ident", "name", "name_aliases", "normal", "segment"}
\* ranges are expected to be merged in these, entries to be single characters in the direct ones
RangeTables(d) ==
    [x \in {"case/" \o CaseFile[p] : p \in Core} |-> Where(d.core, CHOOSE p \in Core : "case/" \o CaseFile[p] = x)] @@
    ("age/age_values" :> Pairs(d.age, LAMBDA l : Nums(<<l[3], l[4], l[5]>>))) @@
    ("bidi/bidi_class" :> BidiClass(d)) @@
    ("bidi/bidi_mirrored" :> UD(d, LAMBDA u : u.mi = 1, Unit)) @@
    ("bidi/bidi_control" :> Where(d.plist, "Bidi_Control")) @@
    ("block/blocks" :> Pairs(d.blocks, LAMBDA l : l[3])) @@
    ("category/general_category" :> UD(d, All, LAMBDA u : u.gc)) @@
    ("common/alphabetic" :> Where(d.core, "Alphabetic")) @@
    ("common/white_space" :> Where(d.plist, "White_Space")) @@
    ("common/alphanumeric" :> (Where(d.core, "Alphabetic") \cup UD(d, Numeric, Unit))) @@
    ("common/control" :> UD(d, LAMBDA u : u.gc = "Cc", Unit)) @@
    ("common/numeric" :> UD(d, Numeric, Unit)) @@
    ("ident/id_start" :> Where(d.core, "ID_Start")) @@ ("ident/id_continue" :> Where(d.core, "ID_Continue")) @@
    ("ident/xid_start" :> Where(d.core, "XID_Start")) @@ ("ident/xid_continue" :> Where(d.core, "XID_Continue")) @@
    ("ident/pattern_syntax" :> Where(d.plist, "Pattern_Syntax")) @@
    ("ident/pattern_white_space" :> Where(d.plist, "Pattern_White_Space")) @@
    ("normal/general_category_mark" :> UD(d, Mark, Unit)) @@
    ("normal/canonical_combining_class_values" :> UD(d, LAMBDA u : u.cc # 0, LAMBDA u : ToString(u.cc))) @@
    ("segment/grapheme_cluster_break" :> Pairs(d.gcb, LAMBDA l : "GCB::" \o l[3])) @@
    ("segment/word_break" :> Pairs(d.wb, LAMBDA l : "WB::" \o l[3])) @@
    ("segment/sentence_break" :> Pairs(d.sb, LAMBDA l : "SB::" \o l[3])) @@
    ("emoji/emoji" :> Where(d.emoji, "Emoji")) @@ ("emoji/emoji_presentation" :> Where(d.emoji, "Emoji_Presentation")) @@
    ("emoji/emoji_modifier" :> Where(d.emoji, "Emoji_Modifier")) @@
    ("emoji/emoji_modifier_base" :> Where(d.emoji, "Emoji_Modifier_Base")) @@
    ("emoji/emoji_component" :> Where(d.emoji, "Emoji_Component")) @@
    ("idna/idna_mapping" :> Pairs(d.idna, IdnaValue))
DirectTables(d) ==
    ("name/name_map" :> UD(d, LAMBDA u : u.nm # <<>>, LAMBDA u : Join(u.nm, "|"))) @@
    ("name/jamo" :> {<<l[1], l[2]>> : l \in ToSet(d.jamo)}) @@
    ("name_aliases/name_alias_types" :> TypesOf(d)) @@
    ("name_aliases/corrections" :> Aliases(d, "correction")) @@ ("name_aliases/controls" :> Aliases(d, "control")) @@
    ("name_aliases/alternates" :> Aliases(d, "alternate")) @@ ("name_aliases/figments" :> Aliases(d, "figment")) @@
    ("name_aliases/abbreviations" :> Aliases(d, "abbreviation")) @@
    ("normal/canonical_decomposition_mapping" :> UD(d, Canon, LAMBDA u : Nums(u.dm))) @@
    ("normal/canonical_composition_mapping" :> Compositions(d)) @@
    ("normal/compatibility_decomposition_mapping" :> UD(d, Compat, LAMBDA u : TypeNames[u.dt] \o " " \o Nums(u.dm))) @@
    ("ucdtests/grapheme_cluster_break_test_data" :> TestClasses(Usable(d.gt))) @@
    ("ucdtests/word_break_test_data" :> TestClasses(Usable(d.wt)))
Lists(d) ==
    ("normtests/conformance_tests_data" :> [i \in 1..Len(d.nt) |-> NormTest(d.nt[i])]) @@
    ("segtests/grapheme_cluster_break_test_data" :> (LET ts == Usable(d.gt) IN [i \in 1..Len(ts) |-> GraphemeTest(ts[i])])) @@
    ("segtests/word_break_test_data" :> (LET ts == Usable(d.wt) IN [i \in 1..Len(ts) |-> WordTest(ts[i])])) @@
    ("emoji/emoji_version" :> <<Nums(d.ever)>>) @@ ("idna/unicode_version" :> <<Nums(d.iver)>>) @@
    [x \in {n \o "/unicode_version" : n \in UcdDirs} |-> <<Nums(d.ver)>>]
\* which directories each component of the command line regenerates
DirsOf(c) == CASE c = "ucd" -> UcdDirs \cup {"ucdtests"} [] c = "normal" -> {"normtests"} [] c = "segment" -> {"segtests"}
               [] c = "idna" -> {"idna"} [] c = "emoji" -> {"emoji"}
Components == {"ucd", "normal", "segment", "idna", "emoji"}
Chosen(args) == UNION {DirsOf(c) : c \in (IF args = {} THEN Components ELSE args)}
=============================================================================
