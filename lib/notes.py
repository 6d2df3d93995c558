"""technique and level_note per property, for MANIFEST.json."""
TV = "TLA+ specification checked with TLC; "
NOTES = {
 "B01": (TV + "exhaustive replay of spec behaviours on the code and validation of recorded traces",
   "Exhaustive over all class strings up to length 3 (and 5 over sub-alphabets) x base direction, every continuation of length 3 at the edge of the directional-status stack (nestings 121-127, six openers), every scalar value in place of its class inside these behaviours (class L beyond U+3000 sampled), plus validated random and deep-nesting traces; trusts the transcription of UAX #9 in UBA.tla (cross-checked against java.text.Bidi) and the class of each character (T01)."),
 "B02": (TV + "exhaustive replay of spec behaviours on the code and validation of recorded traces",
   "Exhaustive over class strings up to length 3 and length 6 over the paragraph/isolate alphabet, every scalar value inside them, plus validated random traces; trusts UBA.tla and T01."),
 "B03": (TV + "validation of recorded line-reordering traces against the L1/L2 specification",
   "Every line of every text up to length 4-5 over five alphabets, every scalar value inside them, and validated whole paragraphs and sub-lines of random texts. Levels of characters removed by X9 that precede line-final whitespace are left free."),
 "B04": (TV + "exhaustive replay of the level state machine on the code",
   "Exhaustive over all levels, operations and amounts."),
 "G01": (TV + "finite transition system checked against the rules, all its behaviours up to a bound replayed on the code",
   "Exhaustive over class strings up to length 4 (6 over a sub-alphabet), every character of Unicode in random contexts, random strings up to 40, repetitions of one class over hundreds of characters; trusts the transcription of UAX #29 in GraphemeRules.tla and the class tables in spec/ucd/ref."),
 "G02": (TV + "generated cursor dialogues replayed against the transition system and recorded dialogues validated against GraphemeCursor.tla",
   "All chunkings of all class strings up to length 3 (4 over a sub-alphabet) with scripted and random histories, random longer texts; histories are sampled. Callers that pass overlapping chunks out of protocol are not covered."),
 "G03": (TV + "double-ended replay against the transition system and validation of recorded iterations",
   "Class strings up to length 4 from both ends and in random interleavings; SuffixClosed is checked on the rules up to length 4."),
 "W01": (TV + "finite transducer checked against the rules, all its behaviours up to a bound replayed on the code",
   "Exhaustive over class strings up to length 4 (6 over three sub-alphabets), every character of Unicode in random contexts, random strings up to 40, repetitions of one class over hundreds of characters; trusts WordRules.tla and the class tables in spec/ucd/ref."),
 "W02": (TV + "double-ended replay against the transducer and validation of recorded iterations",
   "Class strings up to length 4 (5 over sub-alphabets) from both ends and in random interleavings."),
 "T01": (TV + "the whole of each property table validated, run by run, as a trace against the reference specification",
   "Exhaustive over all scalar values and 56 properties; trusts spec/ucd/ref (cross-checked against Perl's and Python's Unicode data where those cover it)."),
 "T03": (TV + "validation of recorded parses, names and predicates against the value specification",
   "All values of all properties; spellings are all plain ones plus random case changes and near misses."),
 "T04": (TV + "every maximal run of constant properties validated against derivation rules written in TLA+",
   "Exhaustive over all scalar values; rules are those of UAX #44/#29/#31, UTS #46/#51 that relate the supplied properties."),
 "T05": (TV + "all comparisons and all blocks validated against the order specification",
   "Exhaustive over pairs of ages, blocks and scalar values."),
 "T06": (TV + "the implementation's sorted list of all names validated against names derived in TLA+; random pairs against their positions",
   "All names (derivation, uniqueness, length, neighbours in order); pairs sampled (2 million quick)."),
 "R01": (TV + "every constructor over all pairs of boundary scalar values replayed on the code; recorded ranges validated",
   "Exhaustive over 10 bound kinds and 16 bounds (edges of the code space and of the surrogate gap) per side; others sampled."),
 "R02": (TV + "front/back histories generated by the specification replayed; recorded iterations and parallel split schedules validated",
   "All histories up to 7 single steps (4 mixed) for all boundary ranges, all split schedules of depth 3, random large ranges; rayon's own scheduling is replaced by explicit splits and also run."),
 "T02": (TV + "every table over a bounded set of positions generated by the specification and replayed on the code at five placements; recorded large tables validated",
   "All range tables over 7 positions x 2 values and 10 positions, all direct tables over 9; larger tables sampled."),
 "N01": (TV + "decomposition as a confluent rewriting system; texts generated by the specification replayed; every character and random texts validated as traces",
   "Every scalar value alone and among other characters, all strings up to length 3 over four alphabets and 5 over three, random texts (up to 128 characters); trusts Normal.tla and spec/ucd/ref (cross-checked with Python's unicodedata)."),
 "N02": (TV + "texts generated by the specification replayed; every character, every composing pair and random texts validated as traces",
   "As N01, plus composition of every scalar value with every character that occurs in a decomposition or is reordered, and random pairs."),
 "N03": (TV + "every syllable and every pair around the jamo and syllable ranges validated against the specification; jamo texts replayed",
   "Exhaustive over syllables and over first characters x the jamo neighbourhood; other pairs sampled."),
 "D01": (TV + "domain names generated by the specification replayed with every option; every character in five contexts and random domains validated as traces",
   "Every scalar value alone, after an LTR and an RTL letter, in a Bidi domain and Punycode-encoded; all token strings up to length 2 over 41 tokens and 3-5 over sub-alphabets; random domains. V2, V7 and ContextO are outside the library's documented behaviour; trusts Idna.tla, Normal.tla and spec/ucd/ref."),
 "D02": (TV + "domain names generated by the specification, including lengths at the DNS limits, replayed with every option; traces validated; round trip checked as an invariant of the specification",
   "As D01, with label lengths 61-64 and domain lengths around 253 enumerated by the specification."),
 "D03": (TV + "encoded forms and texts generated by the specification replayed; random codings, damaged forms and 32-bit limits validated",
   "All encoded forms up to length 5 over sub-alphabets from several prefixes, all texts up to length 4-5 over sub-alphabets, the encodings of single characters of every block, random ones up to 600 characters. Texts of 1800 to 5700 characters are only checked for round trip and for not failing below the 32-bit limit."),
 "L01": (TV + "texts and lists generated by the specification replayed on the writers and parsers; written forms of every scalar value and runs of the unic-echo program validated as traces",
   "All texts up to length 3 over 19 boundary characters, all lists up to 2-3 tokens, a sixteenth of all blocks of 32 scalar values per quick run (all of them thorough), random texts and tool runs. A stray plus sign in a list is left unspecified."),
 "T07": (TV + "recorded comparisons, conversions, stated versions and the tool's output validated against the order and the format",
   "All triples over 0..2 and random ones over the whole range; all components."),
 "L02": (TV + "runs of the tool validated row by row against names, aliases and categories of the reference",
   "All characters below U+3400 and an eighth of the others per quick run (all of them thorough), random argument lists. Blanks around the character's cell are not told apart."),
 "X01": (TV + "layouts of data files generated by the specification of reading and writing tables; the generator run on data sets laid out accordingly, its tables validated against the denotation of the files in TLA+",
   "All layouts of the design model (every assignment of two values to 5 code points, as single or range lines, with a gap); one data set per layout with 27 tables each, six times as many thorough; one data set of the real size, laid out from the reference of spec/ucd (48 tables); random selections of components. That ranges are merged is required only of adjacent code points."),
}
NOT_APPLICABLE = {}
