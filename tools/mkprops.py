#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("B01", "Bidi embedding levels follow the Unicode Bidirectional Algorithm",
  "For every text and every choice of base direction, the embedding level reported for each character (and equally for each of its bytes) is the one the Unicode Bidirectional Algorithm assigns: explicit embeddings, overrides and isolates (rules X1-X10, including overflow at nesting depth 125), weak types (W1-W7), neutrals (N1-N2) and implicit levels (I1-I2). The paired-bracket rule N0, which the project documents as not implemented, is left out; a character removed by rule X9 carries, as documented, the level of the character before it (the base level at the start of a paragraph), so that it never breaks a level run. Analysis never panics.",
  ["inputs", "configurations"], "all strings over all bidi classes, all encoded lengths of characters, base direction auto / LTR / RTL / any explicit level, any nesting depth",
  "The unit tests pin a few dozen short strings; the UCD conformance files (BidiTest, BidiCharacterTest) are an empty submodule here, so class combinations, nesting, overflow and multi-byte repetitions are unsampled.",
  ["unic/bidi/src/bidi_info.rs", "unic/bidi/src/explicit.rs", "unic/bidi/src/implicit.rs", "unic/bidi/src/prepare.rs", "unic/bidi/src/level.rs"],
  [("directional status stack with overflow counters", "unic/bidi/src/explicit.rs compute"), ("isolating run sequences", "unic/bidi/src/prepare.rs isolating_run_sequences"), ("weak and neutral resolution", "unic/bidi/src/implicit.rs resolve_weak, resolve_neutral, resolve_levels")],
  [("levels", "one level per byte", "unic/bidi/src/bidi_info.rs BidiInfo"), ("original_classes", "one class per byte", "unic/bidi/src/bidi_info.rs BidiInfo")],
  ["BidiInfo::new", "BidiInfo.levels"])
p("B02", "Text splits into paragraphs with the right base direction and classes",
  "For every text the reported paragraphs are consecutive, non-empty, cover the text exactly and end right after each paragraph separator (or at the end of the text), and each paragraph's base level is the requested one or, when automatic, 1 exactly if its first strong character outside isolates is right-to-left. The reported class of each byte is the Bidi class of its character, except that a first-strong isolate is reported as the right-to-left or left-to-right isolate its content selects.",
  ["inputs", "configurations"], "all strings with any number of paragraphs, nested and unmatched isolates, any base direction",
  "Existing tests cover a handful of two-paragraph strings; nesting of isolates while scanning for the first strong character is hardly sampled.",
  ["unic/bidi/src/bidi_info.rs"],
  [("InitialInfo::new scan with isolate stack", "unic/bidi/src/bidi_info.rs")], None, ["BidiInfo.paragraphs", "BidiInfo.original_classes"])
p("B03", "Line reordering is the permutation the L1 and L2 rules define",
  "For every paragraph and every line (any sub-range on character boundaries, wherever it lies in the text), the visual runs partition the line into maximal equal-level runs, after trailing whitespace and separators were reset to the base level, arranged by reversing from the highest level to the lowest odd one. The reordered line has the same characters as the line, each exactly once, right-to-left runs being reversed character by character, and the per-byte and per-character reordered levels agree with it.",
  ["inputs", "configurations"], "all texts, all paragraphs, all lines inside a paragraph (including lines that do not start at offset zero and later paragraphs)",
  "Tests reorder only whole single-paragraph texts and a few sub-lines; position-dependent indexing errors need a line in the middle of a text with trailing whitespace.",
  ["unic/bidi/src/bidi_info.rs"],
  [("L1 reset and L2 run reversal", "unic/bidi/src/bidi_info.rs visual_runs"), ("reorder_line", "unic/bidi/src/bidi_info.rs")], None,
  ["BidiInfo::visual_runs", "BidiInfo::reorder_line", "BidiInfo::reordered_levels", "BidiInfo::reordered_levels_per_char"])
p("B04", "Embedding-level arithmetic stays inside its documented bounds",
  "A level obtained by construction, conversion, raising, lowering, stepping to the next left-to-right or right-to-left level, or reading back a serialized one, is always the documented number and never exceeds the explicit (125) or implicit (126) maximum; a step that would leave the range reports an error and leaves the level unchanged. Direction, class and presence of right-to-left levels are the parity of that number.",
  ["inputs", "histories"], "all numbers 0..255 and all sequences of operations on a level",
  "Tests touch a few numbers per operation; boundary combinations (amount x level) are sampled.",
  ["unic/bidi/src/level.rs"], [("checked arithmetic", "unic/bidi/src/level.rs raise, raise_explicit, lower, new_explicit_next_*")], None, ["Level::*"])
p("G01", "Grapheme cluster boundaries follow UAX #29",
  "For every string, the extended and the legacy grapheme cluster boundaries reported by iteration are exactly those rules GB1-GB999 of UAX #29 (Unicode 10) define, so clusters are non-empty, cover the string and concatenate to it. The cluster break class used for each character is the Unicode 10 one.",
  ["inputs", "configurations"], "all strings (any length) over all break classes, extended and legacy",
  "GraphemeBreakTest samples mostly pairs and a few triples; long regional-indicator, emoji and prepend contexts and rule interactions are quantified over all lengths.",
  ["unic/segment/src/grapheme.rs", "unic/ucd/segment/src/grapheme_cluster_break.rs"],
  [("check_pair and look-behind state", "unic/segment/src/grapheme.rs")], None, ["Graphemes", "GraphemeIndices", "GraphemeCursor::next_boundary"])
p("G02", "Chunked grapheme cursor agrees with the whole-string boundaries",
  "However a string is split into chunks, and whatever sequence of queries, forward moves, backward moves, repositionings and context supplies a caller performs while obeying the chunk requests, every answer the cursor gives equals the answer on the whole string. The cursor only asks for chunks and contexts that exist, and never panics when they are supplied as requested; a query with a chunk away from the position is rejected, or answered correctly, and has no effect.",
  ["inputs", "histories", "configurations"], "all strings, all chunkings, all call histories that follow the documented protocol",
  "Tests exercise five or six scripted cursor dialogues; chunking and call order are combinatorial.",
  ["unic/segment/src/grapheme.rs"],
  [("chunk protocol: PreContext, PrevChunk, NextChunk", "unic/segment/src/grapheme.rs GraphemeCursor")],
  [("state / resuming / pre_context_offset / ris_count", "what is known about the boundary at the cursor", "unic/segment/src/grapheme.rs GraphemeCursor")],
  ["GraphemeCursor::is_boundary", "next_boundary", "prev_boundary", "provide_context", "set_cursor"])
p("G03", "Grapheme iteration is the same from both ends in any interleaving",
  "Consuming the grapheme clusters of a string from the front, from the back, or in any interleaving of the two yields each cluster exactly once with the same boundaries, and the iterators end together. Reported byte offsets locate the clusters and the remaining-string view is always the not yet consumed middle of the string.",
  ["inputs", "histories"], "all strings and all interleavings of front and back steps",
  "Property tests compare full forward with full reverse passes only on random strings that rarely contain regional indicators, emoji sequences or prepends, and never interleave.",
  ["unic/segment/src/grapheme.rs"], [("two cursors meeting", "unic/segment/src/grapheme.rs Graphemes")], None, ["Graphemes", "GraphemeIndices"])
p("W01", "Word boundaries follow UAX #29",
  "For every string, the word boundaries found by forward iteration are exactly those rules WB1-WB999 of UAX #29 (Unicode 10) define, so segments are non-empty, cover the string and concatenate to it. The word break class used for each character is the Unicode 10 one, and word iteration keeps exactly the segments accepted by the caller's filter.",
  ["inputs"], "all strings (any length) over all word break classes",
  "WordBreakTest samples pairs and short sequences; the state machine's look-ahead over extenders and its quote, apostrophe and regional-indicator states interact over arbitrary lengths.",
  ["unic/segment/src/word.rs", "unic/ucd/segment/src/word_break.rs"], [("forward state machine", "unic/segment/src/word.rs WordBounds::next")], None, ["WordBounds", "WordBoundIndices", "Words"])
p("W02", "Word iteration is the same from both ends in any interleaving",
  "Consuming the word segments of a string from the front, from the back, or in any interleaving of the two yields each segment exactly once with the same boundaries, and the iterators end together. Reported offsets locate the segments and the remaining-string view is always the unconsumed middle.",
  ["inputs", "histories"], "all strings and all interleavings of front and back steps",
  "Property tests compare full forward with full reverse on random strings of mostly unrelated characters and never interleave the two ends.",
  ["unic/segment/src/word.rs"], [("backward state machine and cached categories", "unic/segment/src/word.rs WordBounds::next_back")], None, ["WordBounds", "WordBoundIndices"])
p("N01", "NFD and NFKD are the ordered full decompositions",
  "For every character sequence, canonical (compatibility) decomposition yields exactly the recursive canonical (compatibility) decomposition of each character followed by canonical ordering: characters of non-zero combining class between two starters are stably sorted by class. The result is the same however the lazy iterator is consumed, and decomposing it again changes nothing.",
  ["inputs"], "all finite character sequences, including long runs of combining marks and defective (leading mark) sequences",
  "NormalizationTest samples single characters and short sequences.",
  ["unic/normal/src/decompose.rs", "unic/ucd/normal/src/decompose.rs", "unic/ucd/normal/src/canonical_combining_class.rs"],
  [("sorted pending buffer", "unic/normal/src/decompose.rs")], None, ["StrNormalForm::nfd", "nfkd", "decompose_canonical"])
p("N02", "NFC and NFKC are the canonical compositions of NFD and NFKD",
  "For every character sequence, composition yields the Unicode canonical composition of the corresponding decomposition: each character combines with the last starter exactly when it is not blocked and a non-excluded primary composite exists. Hence the result is canonically (or compatibility) equivalent to the input, idempotent, and equal for equivalent inputs.",
  ["inputs"], "all finite character sequences, including composition exclusions, blocked marks, Hangul and starters that compose with starters",
  "NormalizationTest samples short sequences; blocked and interrupted compositions and iterator states after the last composition are rarely hit.",
  ["unic/normal/src/recompose.rs", "unic/ucd/normal/src/compose.rs"], [("composing/purging/finished state machine", "unic/normal/src/recompose.rs")], None, ["StrNormalForm::nfc", "nfkc", "compose"])
p("N03", "Hangul syllables and jamo convert algorithmically, one to one",
  "Every precomposed Hangul syllable decomposes to its leading, vowel and optional trailing jamo by the standard arithmetic, and composing those gives the syllable back. No other pair of characters composes to a syllable, and no character outside the syllable block is decomposed or classified as a syllable.",
  ["inputs"], "all 11172 syllables, and all pairs of characters around the jamo and syllable ranges",
  "Tests sample a few syllables.",
  ["unic/ucd/hangul/src/hangul.rs", "unic/ucd/normal/src/compose.rs"], [("compose_syllable / decompose_syllable", "unic/ucd/hangul/src/hangul.rs")], None, ["hangul::compose_syllable", "decompose_syllable", "is_syllable"])
p("D01", "Domain names are processed as UTS #46 prescribes",
  "For every domain string and every combination of options, Unicode conversion maps, normalizes, splits and converts each label as UTS #46 prescribes (transitional or not, with or without STD3 rules) and returns that text, and it reports an error exactly when a label fails decoding or one of the implemented validity criteria (NFC, no leading or trailing hyphen, no leading mark, only allowed characters, the Bidi rule), or when mapping meets a disallowed character. It never panics.",
  ["inputs", "configurations"], "all strings, all option combinations",
  "The UTS #46 test file is an empty submodule here; unit tests pin about two dozen strings.",
  ["unic/idna/src/process.rs", "unic/idna/mapping/src/mapping.rs"], [("processing, validate, passes_bidi", "unic/idna/src/process.rs")], None, ["to_unicode"])
p("D02", "ASCII conversion encodes every label, checks lengths and round-trips",
  "For every domain string, ASCII conversion succeeds exactly when processing reports no error, every non-ASCII label can be encoded and, if requested, the DNS length limits hold; the result is pure ASCII with each non-ASCII label replaced by its prefixed Punycode form. Without transitional processing, converting a successful result back to Unicode gives the same text as converting the input, unless a label's Punycode form decodes to a text that itself starts with the ACE prefix.",
  ["inputs", "configurations"], "all strings, all option combinations, label and domain lengths around 0, 63, 253 and 254",
  "Few unit tests; length limits and label/dot combinations are sampled at most once.",
  ["unic/idna/src/process.rs"], [("to_ascii", "unic/idna/src/process.rs")], None, ["to_ascii"])
p("D03", "Punycode encodes and decodes exactly as RFC 3492 specifies",
  "For every character sequence encoding gives the RFC 3492 result or reports overflow, and decoding an encoded result gives the original sequence back. Decoding accepts exactly the well-formed ASCII inputs whose values stay in range, yields the RFC 3492 result for them, and rejects every other input without panicking.",
  ["inputs"], "all sequences of characters, all ASCII and non-ASCII inputs to the decoder",
  "Tests use the RFC samples; digit-level state (bias adaptation, delta overflow, insertion order) over arbitrary inputs is not sampled.",
  ["unic/idna/punycode/src/lib.rs"], [("generalized variable-length integers and bias adaptation", "unic/idna/punycode/src/lib.rs encode, decode, adapt")], None, ["punycode::encode", "decode"])
p("T07", "Versions order by time and every component states the version of its data",
  "Version numbers are ordered by major, then minor, then update number; comparison operators, sorting, maximum, equality and hashing agree, conversion from a triple keeps its numbers and printing gives them separated by dots. Every component reports Unicode 10.0.0, the version of the newest age of any character, the emoji components report Emoji 5.0.0, and the versions tool prints each package with its own name, version and data version.",
  ["inputs"], "all triples of numbers and all pairs of versions, all components",
  "The only test checks that two numbers are plausible.",
  ["unic/common/src/version.rs", "unic/ucd/version/src/unicode_version.rs", "apps/cli/src/bin/unic-versions.rs"], [("UnicodeVersion", "unic/common/src/version.rs"), ("UNICODE_VERSION of each crate", "unic/*/tables/unicode_version.rsv")], None, ["UnicodeVersion", "UNICODE_VERSION", "EMOJI_VERSION", "unic-versions"])
p("R01", "Character ranges behave as the set of scalar values they denote",
  "A character range built in any way (closed, half-open, open, single, all) contains exactly the Unicode scalar values its bounds denote, never a surrogate; its length, emptiness, membership, ordering against a character and equality are those of that set.",
  ["inputs"], "all pairs of bounds, all characters, including bounds next to the surrogate gap, NUL and the last code point",
  "Tests sample a few ranges.",
  ["unic/char/range/src/range.rs", "unic/char/range/src/step.rs"], [("inclusive low/high pair", "unic/char/range/src/range.rs")], None, ["CharRange::*", "chars!"])
p("R02", "Range iteration visits each character once from either end",
  "Iterating a character range from the front, the back or any interleaving yields each of its scalar values exactly once, in order, skipping the surrogate gap, with an exact remaining length at every step, and stays finished once finished. Parallel iteration yields the same characters in the same order.",
  ["inputs", "histories", "schedules"], "all ranges and all interleavings of front/back steps, all parallel splits",
  "Tests iterate a few ranges forward and backward; gap crossings from both ends and parallel ranges that lie entirely above the gap are not covered.",
  ["unic/char/range/src/iter.rs", "unic/char/range/src/step.rs", "unic/char/range/src/par_iter.rs"], [("double-ended iterator with surrogate skip", "unic/char/range/src/iter.rs"), ("compacted parallel range", "unic/char/range/src/par_iter.rs")], None, ["CharIter", "ParCharIter"])
p("T01", "Every character has its Unicode 10 property values",
  "For each of the 1,112,064 scalar values, every supplied character property (age, bidi class, block, case and common properties, category, combining class, decomposition, emoji, identifier, name, segmentation classes, IDNA mapping) has the value the Unicode 10.0 data assigns, and characters with no listed value get the documented default.",
  ["inputs"], "all scalar values, all properties",
  "Tests probe tens of characters per property; there are over a million.",
  ["unic/ucd", "unic/emoji/char", "unic/idna/mapping", "unic/char/property/src/tables.rs"], [("sorted tables with binary search", "unic/char/property/src/tables.rs")], None, ["*::of"])
p("T02", "Property table lookup equals the table read as a partial function",
  "For every well-formed table of characters or disjoint ascending ranges, lookup, membership, lookup with range and iteration all describe the same partial function from characters to values, for every character, including those adjacent to range ends, before the first and after the last entry, and for empty tables.",
  ["inputs"], "all well-formed tables (any shape and size) and all characters",
  "Tests build two or three tables and probe a few characters.",
  ["unic/char/property/src/tables.rs", "unic/char/range/src/range.rs"], [("binary search with range comparison", "unic/char/property/src/tables.rs")], None, ["CharDataTable::find", "contains", "find_with_range", "iter"])
p("T03", "Property value names parse back to the value they name",
  "For every enumerated property, each value has distinct short and long names; parsing either name in any letter case gives that value, parsing anything else fails, the printed form is the documented human-readable one, and the list of all values contains each value once. Predicates on values (category groups, Bidi class groups) equal their Unicode definitions as unions of values, and a text has a directionality exactly when one of its characters has it.",
  ["inputs"], "all values of all enumerated properties, all spellings",
  "Tests parse a few spellings.",
  ["unic/char/property/src/macros.rs", "unic/ucd/category/src/category.rs", "unic/ucd/bidi/src/bidi_class.rs"], [("char_property! macro", "unic/char/property/src/macros.rs")], None, ["FromStr", "Display", "abbr_name", "long_name", "all_values"])
p("T04", "Properties of one character agree across components",
  "For every scalar value the separately stored properties satisfy the Unicode derivation invariants that relate them: case and alphabetic derivations to categories, identifier properties to categories, combining marks and classes to categories and decompositions, segmentation classes to emoji, Hangul and category data, noncharacters and private use to category and age, blocks and names to assignment.",
  ["inputs"], "all scalar values",
  "Tests check single components; a table edited or regenerated for one component only is not compared to the others.",
  ["unic/ucd", "unic/char/basics", "unic/emoji/char"], [("independently generated tables", "gen/, unic/ucd/*/tables")], None, ["*::of", "is_*"])
p("T05", "Ages order by time and blocks partition their code points",
  "Character ages are totally ordered: comparison operators, sorting and maximum agree with each other, with equality and with the documented order. Blocks are disjoint, iterated in ascending order, and the block reported for a character is the iterated block containing it.",
  ["inputs"], "all pairs and triples of ages, all blocks, all scalar values",
  "Tests compare two or three ages with one operator.",
  ["unic/ucd/age/src/age.rs", "unic/ucd/block/src/block.rs"], [("Ord and PartialOrd", "unic/ucd/age/src/age.rs"), ("BlockIter", "unic/ucd/block/src/block.rs")], None, ["Age::partial_cmp", "Age::cmp", "Block::of", "BlockIter"])
p("T06", "Character names are derived, unique and ordered as their text",
  "Every named character's name is the Unicode 10 name (Hangul syllable names composed from jamo, ideograph names from the code point, all others listed), names are unique, the reported length is the length of the printed text, and comparing two names orders them as their texts.",
  ["inputs"], "all named characters and all pairs of names",
  "Tests cover a few names and comparisons; ordering among derived and listed names is a function of pairs.",
  ["unic/ucd/name/src/name.rs", "unic/ucd/name_aliases/src/name_aliases.rs"], [("NR1/NR2/NR3 variants, piecewise words", "unic/ucd/name/src/name.rs")], None, ["Name::of", "Display", "len", "Ord"])
p("L01", "Code point and UTF notations written by the CLI parse back",
  "For every string, writing it as code points, UTF-8 hex or UTF-16 hex and parsing the result with the matching parser gives the string back; each written form lists exactly the code points or code units of the string in order, and each escaped form is a string literal that reads back as the string. Parsers accept any letter case, optional prefixes, leading zeros and any separators, and reject lists that do not denote a well-formed text.",
  ["inputs", "configurations"], "all strings and all writer/parser pairs, all lists of code points and code units",
  "Random tests cover round trips on random strings only, where most characters fall in a few planes.",
  ["apps/cli/src/parsers.rs", "apps/cli/src/writers.rs", "apps/cli/src/bin/unic-echo.rs", "unic/char/basics/src/notation.rs"], [("parsers and writers", "apps/cli/src")], None, ["parsers::*", "writers::*", "unic-echo"])

p("L02", "The inspector describes every character of its input",
  "For every list of arguments the inspector prints, for each character of the arguments joined by single spaces and in their order, exactly one row with the character itself, its code point in U+ notation, its name (its first abbreviation alias if it has no name, <none> if it has neither) and the long name of its general category.",
  ["inputs"], "all texts",
  "The tool has no tests.",
  ["apps/cli/src/bin/unic-inspector.rs", "unic/ucd/name/src/name.rs", "unic/ucd/name_aliases/src/name_aliases.rs"], [("row construction", "apps/cli/src/bin/unic-inspector.rs")], None, ["unic-inspector"])
p("X01", "Generated tables denote exactly the data files they are generated from",
  "For every well-formed set of Unicode data files and every selection of components, the table generator writes exactly the tables of the selected components, and each table read as a partial function assigns to every code point exactly the value the data files give it (names, decompositions, ages, categories, classes, mappings, Hangul, IDNA and emoji data, versions), with sorted, disjoint entries, whatever way the files lay out their ranges, First/Last pairs, comments, blank lines and surrogates.",
  ["inputs", "configurations"], "all well-formed data files (any assignment of values to code points, any layout of it in lines and ranges) and all selections of components",
  "The tests of the repository only see the one data set already generated; the generator itself has no tests, so a mistake shows at the next data update.",
  ["gen/src/source", "gen/src/writer", "gen/src/main.rs"], [("data readers", "gen/src/source"), ("table writers", "gen/src/writer")], None, ["unic-gen"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
