"""Data sets for the table generator: made from the plans of TableGen.tla and random choices, written
as Unicode data files, run through unic-gen in a scratch directory, its tables read back."""
import json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

GC = "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Co".split()
BC = "L R AL EN ES ET AN CS NSM BN B S WS ON LRE LRO RLE RLO PDF LRI RLI FSI PDI".split()
DT = "font noBreak initial medial final isolated circle super sub vertical wide narrow small square fraction compat".split()
CORE = ("Lowercase Uppercase Cased Case_Ignorable Changes_When_Lowercased Changes_When_Uppercased Changes_When_Titlecased "
        "Changes_When_Casefolded Changes_When_Casemapped Alphabetic Default_Ignorable_Code_Point Grapheme_Extend Grapheme_Base "
        "Grapheme_Link Math ID_Start ID_Continue XID_Start XID_Continue").split()
PLIST = ("White_Space Bidi_Control Join_Control Dash Hyphen Quotation_Mark Terminal_Punctuation Other_Math Hex_Digit ASCII_Hex_Digit "
         "Other_Alphabetic Ideographic Diacritic Extender Other_Lowercase Other_Uppercase Noncharacter_Code_Point Other_Grapheme_Extend "
         "IDS_Binary_Operator IDS_Trinary_Operator Radical Unified_Ideograph Other_Default_Ignorable_Code_Point Deprecated Soft_Dotted "
         "Logical_Order_Exception Other_ID_Start Other_ID_Continue Sentence_Terminal Variation_Selector Pattern_White_Space "
         "Pattern_Syntax Prepended_Concatenation_Mark Regional_Indicator").split()
EMOJI = "Emoji Emoji_Presentation Emoji_Modifier Emoji_Modifier_Base Emoji_Component".split()
GCB = "Prepend CR LF Control Extend Regional_Indicator SpacingMark L V T LV LVT E_Base E_Modifier ZWJ Glue_After_Zwj E_Base_GAZ".split()
WB = "Double_Quote Single_Quote Hebrew_Letter CR LF Newline Extend Regional_Indicator Format Katakana ALetter MidLetter MidNum MidNumLet Numeric ExtendNumLet E_Base E_Modifier ZWJ".split()
SB = "CR LF Extend Sep Format Sp Lower Upper OLetter Numeric ATerm SContinue STerm Close".split()
IDNA = "valid ignored mapped deviation disallowed disallowed_STD3_valid disallowed_STD3_mapped".split()
ALIAS = "correction control alternate figment abbreviation".split()
WORDS = ("LATIN CAPITAL LETTER SMALL A B OF SIGN WITH -A KSSA-LIKE ONE-HALF DOTS-1 LR-2 AE O-2 IDEOGRAPH-F900 X NULL HYPHEN-MINUS "
         "TONE-SIX SIXTY-FOURTH E2 M-1").split()
#: clusters of five neighbouring characters: the start and end of the code space, both sides of the
#: surrogate gap, edges of the default Bidi classes, of planes, of the numbers of hexadecimal digits
WINDOWS = [[0, 1, 2, 3, 4], [0x58E, 0x58F, 0x590, 0x591, 0x592], [0x5FE, 0x5FF, 0x600, 0x601, 0x602], [0x7BE, 0x7BF, 0x7C0, 0x7C1, 0x7C2],
           [0x89E, 0x89F, 0x8A0, 0x8A1, 0x8A2], [0x8FE, 0x8FF, 0x900, 0x901, 0x902], [0xFFE, 0xFFF, 0x1000, 0x1001, 0x1002],
           [0x20CE, 0x20CF, 0x20D0, 0x20D1, 0x20D2], [0x209F, 0x20A0, 0x20A1, 0x20A2, 0x20A3],
           [0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xE002], [0xFDCE, 0xFDCF, 0xFDD0, 0xFDD1, 0xFDD2], [0xFEFE, 0xFEFF, 0xFF00, 0xFF01, 0xFF02],
           [0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x10002], [0x10FFE, 0x10FFF, 0x11000, 0x11001, 0x11002],
           [0x1EDFE, 0x1EDFF, 0x1EE00, 0x1EE01, 0x1EE02], [0x1EEFE, 0x1EEFF, 0x1EF00, 0x1EF01, 0x1EF02],
           [0xFFFFE, 0xFFFFF, 0x100000, 0x100001, 0x100002], [0x10FFFB, 0x10FFFC, 0x10FFFD, 0x10FFFE, 0x10FFFF]]


def scalars(lo, hi):
    return [c for c in range(lo, hi + 1) if not 0xD800 <= c <= 0xDFFF]


def spread(plans, j, stride, extra=()):
    """One plan per window, a different one in each: [(lo, hi, value 1 or 2)]."""
    out = []
    for w, win in enumerate(list(WINDOWS) + list(extra)):
        for a, b, v in plans[(j + stride * (w + 1) * 7 + w) % len(plans)]:
            out.append((win[a - 1], win[b - 1], v))
    return out


def make(plans, j, rnd):
    """Data set number j."""
    extra = []
    for _ in range(3):
        b = rnd.choice([rnd.randrange(0x2000, 0xD000, 16), rnd.randrange(0x12000, 0x1E000, 16), rnd.randrange(0x21000, 0xF0000, 16)]) + 0x100
        win = [b, b + 1, b + 2, b + 3, b + 4]
        if all(abs(b - o[0]) > 10 for o in WINDOWS + extra):
            extra.append(win)
    # the window of this data set that gets every plan in turn is the first; the others vary with it
    lay = lambda stride: sorted(spread(plans, j, stride, extra))
    d = {}
    # ---- UnicodeData: two kinds of lines per data set, differing in one field or in all
    def bundle():
        dt = rnd.choice(["", "", rnd.choice(DT)])
        return {"gc": rnd.choice(GC), "cc": rnd.choice([0, 0, 1, 9, 220, 230, 240, 255]), "bc": rnd.choice(BC), "dt": dt,
                "mi": rnd.randint(0, 1)}
    one = bundle()
    two = bundle()
    if rnd.random() < 0.6:
        f = rnd.choice(list(one))
        two = dict(one, **{f: two[f]})
    ud = []
    seen = set()
    pool = [rnd.choice(WINDOWS)[rnd.randrange(5)] for _ in range(6)] + [0x41, 0x300, 0x1100, 0x10FFFF, 0xFB1D]
    def mapping(u, single):
        if u["dt"]:
            return [rnd.choice(pool) for _ in range(rnd.choice([1, 1, 2, 3, 18, 25]))]
        k = rnd.choice([0, 1, 2, 2]) if single else rnd.choice([0, 0, 1])
        if k == 2:
            m = [rnd.choice(pool), rnd.choice(pool)]
            if tuple(m) in seen:
                return []
            seen.add(tuple(m))
            return m
        return [rnd.choice(pool)] if k else []
    def name():
        return [rnd.choice(WORDS) for _ in range(rnd.choice([1, 1, 2, 3, 6, 11, 19]))] if rnd.random() < 0.85 else []
    for lo, hi, v in lay(1):
        b = one if v == 1 else two
        if rnd.random() < 0.1:
            b = bundle()
        cs = scalars(lo, hi)
        if len(cs) > 1 and rnd.random() < 0.5:
            u = dict(b, c=lo, e=hi, nm=[])
            u["dm"] = mapping(u, False)
            if not u["dm"]:
                u["dt"] = ""
            ud.append(u)
        else:
            for c in cs:
                u = dict(b, c=c, e=c, nm=name())
                u["dm"] = mapping(u, True)
                if not u["dm"]:
                    u["dt"] = ""
                ud.append(u)
    if rnd.random() < 0.1:      # a long First/Last pair, and one of surrogates, as in the real file
        ud.append(dict(bundle(), c=0x31000, e=0x31000 + rnd.randrange(1, 3000), nm=[], dm=[], dt=""))
    ud.append(dict(gc="Cs", cc=0, bc="L", dt="", mi=0, c=0xD800, e=0xDB7F, nm=[], dm=[]))
    if rnd.random() < 0.5:
        ud.append(dict(gc="Cs", cc=0, bc="L", dt="", mi=0, c=0xDC00, e=0xDFFF, nm=[], dm=[]))
    d["ud"] = sorted(ud, key=lambda u: u["c"])
    # ---- property and value files
    def props(names, used, stride):
        out = []
        for i, n in enumerate(used):
            out += [[lo, hi, n] for lo, hi, v in lay(stride + i) if v == 1 or rnd.random() < 0.3]
        for n in names:
            if n not in used and rnd.random() < 0.3:
                c = rnd.randrange(0x50000)
                if c < 0xD000 or c > 0xE000:
                    out.append([c, c + rnd.choice([0, 0, 3]), n])
        return out
    d["core"] = props(CORE, rnd.sample(CORE, 9), 2)
    d["plist"] = props(PLIST, ["White_Space", "Bidi_Control", "Pattern_White_Space", "Pattern_Syntax"][:rnd.randint(2, 4)] + ["Hyphen"], 3)
    d["emoji"] = props(EMOJI, rnd.sample(EMOJI, 4), 5)
    def order(ls):
        # as in the real files: by code point, or grouped by value
        return ls if rnd.random() < 0.5 else sorted(ls, key=lambda l: (l[2:], l[0]))
    def values(vals, stride):
        a, b = rnd.sample(vals, 2)
        return [[lo, hi, a if v == 1 else b] for lo, hi, v in lay(stride)]
    d["gcb"] = order(values(GCB, 4))
    d["wb"] = order(values(WB, 6))
    d["sb"] = order(values(SB, 8))
    if rnd.random() < 0.5:
        d["gcb"].append([0xD800, 0xDFFF, "Control"])
    # half of the time the blocks are adjacent, as the real ones
    d["blocks"] = values(["Basic Latin", "Latin-1 Supplement", "CJK Unified Ideographs Extension A", "Arabic Presentation Forms-B", "No_Block"], 9)
    if rnd.random() < 0.5:
        d["blocks"].append([0xD800, 0xDB7F, "High Surrogates"])
    va = [rnd.choice([1, 2, 10, 12]), rnd.choice([0, 1]), rnd.choice([0, 0, 3])]
    vb = list(va)
    vb[rnd.randrange(3)] += 1
    d["age"] = order([[lo, hi] + (va if v == 1 else vb) for lo, hi, v in lay(10)])
    if rnd.random() < 0.5:
        d["age"].append([0xD800, 0xDFFF, 2, 0, 0])
    d["excl"] = [[lo, hi] for lo, hi, v in lay(1) if rnd.random() < (0.3 if lo == hi else 0.1)]
    def idna_line():
        s = rnd.choice(IDNA)
        m = []
        if s in ("mapped", "disallowed_STD3_mapped") or (s == "deviation" and rnd.random() < 0.6):
            m = [rnd.choice(pool + [0x61, 0x2E, 0x22, 0x5C]) for _ in range(rnd.choice([1, 1, 2, 5, 13, 18, 25]))]
        return [s, m]
    ia = idna_line()
    ib = idna_line()
    if rnd.random() < 0.4 and ia[1]:
        ib = [ia[0], ia[1] + [0x61]] if rnd.random() < 0.5 else [ia[0], ia[1][:-1] + [ia[1][-1] ^ 1]]
        ib[1] = [c if not 0xD800 <= c <= 0xDFFF else 0x62 for c in ib[1]]
    d["idna"] = order([[lo, hi] + (ia if v == 1 else ib) for lo, hi, v in lay(11)])
    if rnd.random() < 0.5:
        d["idna"].append([0xD800, 0xDFFF, "disallowed", []])
    d["jamo"] = [[c, rnd.choice(["", "G", "GG", "YEO", "NG"])] for c in sorted(rnd.sample(range(0x1100, 0x11C3), rnd.randint(1, 20)))]
    d["aliases"] = []
    for c in sorted(rnd.sample([c for w in WINDOWS for c in w], rnd.randint(1, 25))):
        for _ in range(rnd.choice([1, 1, 2, 3, 5, 9])):
            d["aliases"].append([c, rnd.choice(["NUL", "END OF LINE", "LATIN CAPITAL LETTER GHA", "BOM", "SGC", "VS-16", "NEW LINE"]), rnd.choice(ALIAS)])
    txt = lambda: [rnd.choice(pool + [0x44, 0x307, 0xAC00]) for _ in range(rnd.choice([1, 1, 2, 3, 18]))]
    d["nt"] = [[txt() for _ in range(5)] for _ in range(rnd.choice([0, 1, 2, 4, 6, 40]))]
    def tests(classes, rules):
        of = {c: rnd.choice(classes) for c in pool + [0x20, 0x308, 0x1F1E6, 0xAC01]}
        out = []
        for _ in range(rnd.randint(0, 8)):
            n = rnd.choice([1, 2, 2, 3, 5, 12, 25])
            cs = [rnd.choice(sorted(of) if rnd.random() < 0.97 else [0xD800]) for _ in range(n)]
            out.append({"c": cs, "g": [of.get(c, "Control") for c in cs], "b": [rnd.randint(0, 1) for _ in cs[1:]],
                        "r": [rnd.choice(rules) for _ in cs[1:]]})
        return out
    d["gt"] = tests(GCB + ["Other"], ["9.1", "9.2", "9.0", "999.0", "3.0", "12.0", "9.3"])
    d["wt"] = tests(WB + ["Other", "Extend_FE", "Format_FE", "ZWJ_FE"], ["4.0", "999.0", "13.1", "7.1"])
    d["ver"] = [rnd.choice([6, 10, 11]), rnd.randint(0, 3), rnd.randint(0, 2)]
    d["iver"] = [rnd.choice([6, 10, 11]), rnd.randint(0, 3), rnd.randint(0, 2)]
    d["ever"] = [rnd.choice([3, 5, 11]), rnd.randint(0, 2), 0]
    return d


# ---------------------------------------------------------------- writing the files
def h(c):
    return "%04X" % c


def rng(lo, hi):
    return h(lo) if lo == hi else h(lo) + ".." + h(hi)


def noise(rnd):
    return rnd.choice(["", "", "", "\n", "# a comment; with 0041 ; Emoji in it\n", "\n# @missing: 0000..10FFFF; Unassigned\n"])


def write_files(d, root, rnd):
    def put(path, text, version=None):
        p = os.path.join(root, "external/unicode", path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
    def hx(s):
        return " ".join(h(c) for c in s)
    out = []
    for u in d["ud"]:
        dec = ("<%s> " % u["dt"] if u["dt"] else "") + hx(u["dm"])
        label = u.get("label") or rnd.choice(["CJK Ideograph Extension A", "Hangul Syllable", "Plane 15 Private Use"])
        rest = ";%s;%d;%s;%s;%s;%s;%s;%s;%s;;%s;%s;%s" % (
            u["gc"], u["cc"], u["bc"], dec, rnd.choice(["", "7"]), rnd.choice(["", "7"]), rnd.choice(["", "7", "1/4", "-1/2"]),
            "Y" if u["mi"] else "N", rnd.choice(["", "LATIN OLD NAME", "START OF HEADING (X)"]),
            rnd.choice(["", "0041"]), rnd.choice(["", "0061"]), rnd.choice(["", "01C5"]))
        if u["e"] > u["c"]:
            out.append("%s;<%s, First>%s" % (h(u["c"]), label, rest))
            out.append("%s;<%s, Last>%s" % (h(u["e"]), label, rest))
        else:
            out.append("%s;%s%s" % (h(u["c"]), " ".join(u["nm"]) if u["nm"] else "<control>", rest))
    put("ucd/data/UnicodeData.txt", "\n".join(out) + "\n")
    def lines(path, ls, fmt, head="# head\n"):
        text = head
        for l in ls:
            text += noise(rnd) + fmt(l) + "\n"
        put(path, text + rnd.choice(["", "\n# EOF\n"]))
    prop = lambda l: "%-14s; %s # %s" % (rng(l[0], l[1]), l[2], rnd.choice(["Cc  [5] <control-0009>..<control-000D>", "Lo       X ; 0041 ; Emoji"]))
    lines("ucd/data/DerivedCoreProperties.txt", d["core"], prop)
    lines("ucd/data/PropList.txt", d["plist"], prop)
    lines("emoji/data/emoji-data.txt", d["emoji"], lambda l: "%-14s; %-21s#  1.1  [1] (%s)  x" % (rng(l[0], l[1]), l[2], chr(0x1F600)))
    val = lambda l: "%-14s; %s # x" % (rng(l[0], l[1]), l[2])
    lines("ucd/data/auxiliary/GraphemeBreakProperty.txt", d["gcb"], val)
    lines("ucd/data/auxiliary/WordBreakProperty.txt", d["wb"], val)
    lines("ucd/data/auxiliary/SentenceBreakProperty.txt", d["sb"], val)
    lines("ucd/data/Blocks.txt", d["blocks"], lambda l: "%s..%s; %s" % (h(l[0]), h(l[1]), l[2]))
    lines("ucd/data/DerivedAge.txt", d["age"], lambda l: "%-14s; %d.%d%s # x" % (rng(l[0], l[1]), l[2], l[3], ".%d" % l[4] if l[4] or rnd.random() < .2 else ""))
    lines("ucd/data/Jamo.txt", d["jamo"], lambda l: "%s; %s # HANGUL CHOSEONG X" % (h(l[0]), l[1]))
    lines("ucd/data/NameAliases.txt", d["aliases"], lambda l: "%s;%s;%s" % (h(l[0]), l[1], l[2]))
    ex = [("%-14s; Full_Composition_Exclusion # Mn" % rng(l[0], l[1])) for l in d["excl"]] + \
         ["0340..0341    ; NFD_QC; N # Mn", "037A          ; FC_NFKC; 0020 03B9 # Lm", "0041          ; Changes_When_NFKC_Casefolded # L&"]
    rnd.shuffle(ex)
    lines("ucd/data/DerivedNormalizationProps.txt", ex, lambda l: l)
    def idna(l):
        s = "%-14s; %-23s" % (rng(l[0], l[1]), l[2])
        if l[2] in ("mapped", "deviation", "disallowed_STD3_mapped"):
            s += "; %s" % hx(l[3]).ljust(rnd.choice([0, 20]))
        elif l[2] == "valid" and rnd.random() < 0.4:
            s += ";                  ; %s" % rnd.choice(["NV8   ", "XV8"])
        return s + " # 1.1  X"
    lines("idna/data/IdnaMappingTable.txt", d["idna"], idna)
    lines("ucd/data/NormalizationTest.txt", d["nt"], lambda l: ";".join(hx(s) for s in l) + "; # (x) LATIN",
          "# head\n@Part0 # Specific cases\n#\n")
    def test(t):
        src = "\u00f7 " + h(t["c"][0])
        cm = "\u00f7 [0.2] NAME (%s)" % t["g"][0]
        for i in range(1, len(t["c"])):
            b = "\u00f7" if t["b"][i - 1] else "\u00d7"
            src += " %s %s" % (b, h(t["c"][i]))
            cm += " %s [%s] %s (%s)" % (b, t["r"][i - 1], rnd.choice(["SPACE", "<CARRIAGE RETURN (CR)>", "HEBREW-LETTER ALEF"]), t["g"][i])
        return src + " \u00f7\t#  " + cm + " \u00f7 [0.3]"
    lines("ucd/data/auxiliary/GraphemeBreakTest.txt", d["gt"], test)
    lines("ucd/data/auxiliary/WordBreakTest.txt", d["wt"], test)
    put("ucd/data/ReadMe.txt", "# x\n\nThis directory contains the final data files\nfor Version %d.%d.%d of the Unicode Standard.\n" % tuple(d["ver"]))
    put("idna/data/ReadMe.txt", "# Unicode IDNA Mapping\n\nfor Version %d.%d.%d of UTS #46\n" % tuple(d["iver"]))
    put("emoji/data/ReadMe.txt", "# Unicode Emoji\n\nThis directory contains data files for Unicode Emoji, Version %d.%d\n" % tuple(d["ever"][:2]))


# ---------------------------------------------------------------- reading the tables
TOKEN = re.compile(r"""\s*(?:
    (?P<com>//[^\n]*) | (?P<chr>'(?:\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])') | (?P<str>"(?:\\.|[^"\\])*") |
    (?P<num>\d[\d_]*) | (?P<id>[A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*!?) | (?P<rng>\.\.=) | (?P<p>[()\[\]{},&:=;]))""", re.X)


class Bad(Exception):
    pass


def tokens(text):
    pos, out = 0, []
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Bad("unreadable at %r" % text[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k != "com":
            out.append((k, m.group(k)))
    return out + [("end", "")]


def unescape(s):
    def r(m):
        e = m.group(1)
        if e.startswith("u{"):
            return chr(int(e[2:-1].replace("_", ""), 16))
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(e, e)
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|.)", r, s)


class Parser:
    """The Rust expressions of the tables: (kind, value) trees."""
    def __init__(self, text):
        self.t, self.i = tokens(text), 0

    def peek(self):
        return self.t[self.i]

    def take(self, v=None):
        k = self.t[self.i]
        if v is not None and k[1] != v:
            raise Bad("expected %r, found %r" % (v, k[1]))
        self.i += 1
        return k

    def seq(self, close):
        out = []
        while self.peek()[1] != close:
            out.append(self.expr())
            if self.peek()[1] == ",":
                self.take()
            elif self.peek()[1] != close:
                raise Bad("expected a comma, found %r" % (self.peek()[1],))
        self.take(close)
        return out

    def expr(self):
        k, v = self.take()
        if k == "chr":
            e = ("chr", ord(unescape(v[1:-1])))
        elif k == "str":
            e = ("str", unescape(v[1:-1]))
        elif k == "num":
            e = ("num", int(v.replace("_", "")))
        elif v == "&":
            return self.expr()
        elif v == "[":
            e = ("list", self.seq("]"))
        elif v == "(":
            e = ("tuple", self.seq(")"))
        elif k == "id":
            if self.peek()[1] == "(":
                self.take()
                e = ("call", v, self.seq(")"))
            elif self.peek()[1] == "{":
                self.take()
                fs = {}
                while self.peek()[1] != "}":
                    n = self.take()[1]
                    self.take(":")
                    fs[n] = self.expr()
                    if self.peek()[1] == ",":
                        self.take()
                self.take("}")
                e = ("struct", v, fs)
            else:
                e = ("id", v)
        else:
            raise Bad("unexpected %r" % v)
        if self.peek()[0] == "rng":
            self.take()
            e = ("range", e, self.expr())
        return e

    def whole(self):
        e = self.expr()
        if self.peek()[0] != "end":
            raise Bad("text after the table: %r" % self.peek()[1])
        return e


def version(e):
    if e[0] != "struct" or e[1] != "UnicodeVersion":
        raise Bad("not a version")
    return " ".join(str(e[2][f][1]) for f in ("major", "minor", "micro"))


def nums(s):
    return " ".join(str(ord(c)) for c in s)


def chars(e):
    if e[0] != "list" or any(x[0] != "chr" for x in e[1]):
        raise Bad("not a list of characters")
    return " ".join(str(x[1]) for x in e[1])


def value(e, table, consts):
    """The text of a value, as the specification writes it."""
    if table == "name/name_map":
        return "|".join(consts[x[1]] for x in e[1])
    if table in ("canonical_decomposition_mapping",):
        return chars(e)
    if table == "normal/canonical_decomposition_mapping":
        return chars(e)
    if table == "normal/compatibility_decomposition_mapping":
        return e[1][0][1] + " " + chars(e[1][1])
    if table == "normal/canonical_composition_mapping":
        return "|".join("%d %d" % (lo, v) for lo, hi, v in entries(e, lambda x: x[1]))
    if table == "normal/canonical_combining_class_values":
        if e[1] != "CanonicalCombiningClass":
            raise Bad("not a combining class")
        return str(e[2][0][1])
    if table == "age/age_values":
        return version(e)
    if table == "idna/idna_mapping":
        return e[1] if e[0] == "id" else "%s(%s)" % (e[1], nums(e[2][0][1]))
    if table.startswith("name_aliases/"):
        return "|".join(x[1] for x in e[1])
    if e == ("tuple", []):
        return "()"
    if e[0] in ("id", "str"):
        return e[1]
    raise Bad("unexpected value %r" % (e,))


def entries(e, val):
    if e[0] != "call" or e[1] not in ("CharDataTable::Range", "CharDataTable::Direct"):
        raise Bad("not a table")
    out = []
    for x in e[2][0][1]:
        if x[0] != "tuple" or len(x[1]) != 2:
            raise Bad("not an entry")
        k, v = x[1]
        if e[1].endswith("Direct"):
            if k[0] != "chr":
                raise Bad("not a character")
            lo = hi = k[1]
        else:
            if k[0] != "call" or k[1] != "chars!" or k[2][0][0] != "range":
                raise Bad("not a range")
            lo, hi = k[2][0][1][1], k[2][0][2][1]
        out.append([lo, hi, val(v)])
    return out


def read_table(path, name, root):
    text = open(path, encoding="utf-8").read()
    if name.endswith("version"):
        return [version(Parser(text).whole())]
    if name == "normtests/conformance_tests_data":
        return [";".join(nums(s[1]) for s in x[1]) for x in Parser(text).whole()[1]]
    if name.startswith("segtests/"):
        out = []
        for x in Parser(text).whole()[1]:
            parts = [nums(x[1][0][1]), "|".join(nums(s[1]) for s in x[1][1][1])]
            for o in x[1][2:]:
                parts.append("None" if o == ("id", "None") else "|".join(nums(s[1]) for s in o[2][0][1]))
            out.append(";".join(parts))
        return out
    consts = {}
    if name == "name/name_map":
        src = open(os.path.join(root, "unic/ucd/name/tables/name_values.rsd"), encoding="utf-8").read()
        for m in re.finditer(r'const\s+(\w+)\s*:\s*&(?:\'static\s+)?str\s*=\s*"((?:\\.|[^"\\])*)"\s*;', src):
            if m.group(1) in consts:
                raise Bad("constant %s twice" % m.group(1))
            consts[m.group(1)] = unescape(m.group(2))
    return entries(Parser(text).whole(), lambda e: value(e, name, consts))


DIRS = dict([(n, "unic/ucd/%s/tables" % n) for n in
             "age bidi block case category common version hangul ident name name_aliases normal segment".split()] +
            [("ucdtests", "unic/ucd/segment/tests/tables"), ("normtests", "unic/normal/tests/tables"),
             ("segtests", "unic/segment/tests/tables"), ("idna", "unic/idna/mapping/tables"), ("emoji", "unic/emoji/char/tables")])


def run_one(exe, plans, j, seed, root):
    """Make data set j, run the generator on it, read its tables: (record, problem)."""
    rnd = random.Random(seed * 1000003 + j)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    d = make(plans, j, rnd)
    write_files(d, root, rnd)
    args = [] if rnd.random() < 0.8 else rnd.sample(["ucd", "normal", "segment", "idna", "emoji"], rnd.randint(1, 3))
    # what was there before must be gone from regenerated directories, and stay in the others
    for n, p in DIRS.items():
        q = os.path.join(root, p)
        os.makedirs(q, exist_ok=True)
        open(os.path.join(q, "stale.rsv"), "w").close()
    try:
        r = subprocess.run([exe] + args, cwd=root, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        return None, {"what": "X01", "message": "no result after 120 s", "set": j, "args": args}
    if r.returncode != 0:
        return None, {"what": "X01", "message": "the generator failed", "set": j, "args": args, "stderr": r.stderr.decode("utf-8", "replace")[-500:]}
    rec = {"d": d, "args": args, "dirs": [], "out": {}, "set": j}
    for n, p in DIRS.items():
        q = os.path.join(root, p)
        if os.path.exists(os.path.join(q, "stale.rsv")) and os.listdir(q) == ["stale.rsv"]:
            continue
        if not os.path.exists(os.path.join(q, "stale.rsv")):
            rec["dirs"].append(n)
        for f in sorted(os.listdir(q)):
            if f.endswith(".rsv") and f != "stale.rsv":
                name = n + "/" + f[:-4]
                try:
                    rec["out"][name] = read_table(os.path.join(q, f), name, root)
                except (Bad, KeyError, IndexError, TypeError) as e:
                    return rec, {"what": "X01", "message": "table %s does not read back: %s %s" % (name, type(e).__name__, e), "set": j}
    shutil.rmtree(root, ignore_errors=True)
    return rec, None


def run_all(exe, plans, sets, seed, root, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda j: run_one(exe, plans, j, seed, os.path.join(root, "set%d" % j)), sets))


# ---------------------------------------------------------------- the real size
DTAG = dict(zip("Font Nb Init Med Fin Iso Enc Sup Sub Vert Wide Nar Sml Sqr Fra Com".split(),
                "font noBreak initial medial final isolated circle super sub vertical wide narrow small square fraction compat".split()))
PROPFILE = {"Lower": "Lowercase", "Upper": "Uppercase", "Cased": "Cased", "CI": "Case_Ignorable", "CWL": "Changes_When_Lowercased",
            "CWU": "Changes_When_Uppercased", "CWT": "Changes_When_Titlecased", "CWCF": "Changes_When_Casefolded",
            "CWCM": "Changes_When_Casemapped", "Alpha": "Alphabetic", "IDS": "ID_Start", "IDC": "ID_Continue", "XIDS": "XID_Start",
            "XIDC": "XID_Continue"}
PLISTP = {"WSpace": "White_Space", "Bidi_C": "Bidi_Control", "Pat_Syn": "Pattern_Syntax", "Pat_WS": "Pattern_White_Space"}
EMOJIP = {"Emoji": "Emoji", "EPres": "Emoji_Presentation", "EMod": "Emoji_Modifier", "EBase": "Emoji_Modifier_Base", "EComp": "Emoji_Component"}
IDNAP = {"V": "valid", "I": "ignored", "M": "mapped", "D": "deviation", "X": "disallowed", "3V": "disallowed_STD3_valid", "3M": "disallowed_STD3_mapped"}
ALIASP = ["correction", "control", "alternate", "figment", "abbreviation"]
#: how the file names what the library lists as a kind of alias
KINDS = {"NameCorrections": "correction", "ControlCodeNames": "control", "AlternateNames": "alternate", "Figments": "figment",
         "NameAbbreviations": "abbreviation"}
#: blocks of characters whose lines UnicodeData.txt abbreviates to a First/Last pair
PAIRS = [("CJK Ideograph Extension A", 0x3400, 0x4DB5), ("CJK Ideograph", 0x4E00, 0x9FEA), ("Hangul Syllable", 0xAC00, 0xD7A3),
         ("Private Use", 0xE000, 0xF8FF), ("Tangut Ideograph", 0x17000, 0x187EC), ("CJK Ideograph Extension B", 0x20000, 0x2A6D6),
         ("CJK Ideograph Extension C", 0x2A700, 0x2B734), ("CJK Ideograph Extension D", 0x2B740, 0x2B81D),
         ("CJK Ideograph Extension E", 0x2B820, 0x2CEA1), ("CJK Ideograph Extension F", 0x2CEB0, 0x2EBE0),
         ("Plane 15 Private Use", 0xF0000, 0xFFFFD), ("Plane 16 Private Use", 0x100000, 0x10FFFD)]


def load_ref(ref):
    props = {}
    for l in open(os.path.join(ref, "props.ndjson")):
        x = json.loads(l)
        props[x["p"]] = x["runs"]
    names = {}
    for l in open(os.path.join(ref, "names.ndjson")):
        x = json.loads(l)
        names[x["c"]] = x["name"]
    values = [json.loads(l) for l in open(os.path.join(ref, "values.ndjson"))]
    return props, names, values


def full_set(ref, rnd):
    """The data files the reference describes, in the layout of the real ones."""
    props, names, values = load_ref(ref)
    long = {(v["prop"], v["abbr"]): v["long"] for v in values}
    def at(p):
        out = {}
        for lo, hi, v in props[p]:
            out.update((c, v) for c in range(lo, hi + 1))
        return out
    def lines(p, skip, f=lambda v: [v]):
        return [[lo, hi] + f(v) for lo, hi, v in props[p] if v != skip]
    def where(table):
        return [l for p, n in table.items() for l in lines(p, "N", lambda v: [n])]
    d = {"core": where(PROPFILE), "plist": where(PLISTP), "emoji": where(EMOJIP)}
    gc, bc, ccc, mi, dt, canon, compat = (at(p) for p in ("gc", "bc", "ccc", "Bidi_M", "dt", "canon", "compat"))
    hexs = lambda s: [int(x, 16) for x in s.split()]
    ud, done = [], set()
    for label, lo, hi in PAIRS:
        ud.append(dict(c=lo, e=hi, nm=[], gc=gc[lo], cc=int(ccc[lo]), bc=bc[lo], dt="", dm=[], mi=0, label=label))
        done.update(range(lo, hi + 1))
    for label, lo, hi in (("Non Private Use High Surrogate", 0xD800, 0xDB7F), ("Private Use High Surrogate", 0xDB80, 0xDBFF), ("Low Surrogate", 0xDC00, 0xDFFF)):
        ud.append(dict(c=lo, e=hi, nm=[], gc="Cs", cc=0, bc="L", dt="", dm=[], mi=0, label=label))
    for c, g in gc.items():
        if g == "Cn" or c in done:
            continue
        nm = names.get(c)
        if nm is None and (0xF900 <= c <= 0xFAD9 or 0x2F800 <= c <= 0x2FA1D):
            nm = "CJK COMPATIBILITY IDEOGRAPH-%04X" % c
        if nm is None and 0x1B170 <= c <= 0x1B2FB:
            nm = "NUSHU CHARACTER-%04X" % c
        m, t = (hexs(canon[c]), "") if canon[c] != "-" else (hexs(compat[c]), DTAG[dt[c]]) if compat[c] != "-" else ([], "")
        ud.append(dict(c=c, e=c, nm=nm.split(" ") if nm else [], gc=g, cc=int(ccc[c]), bc=bc[c], dt=t, dm=m, mi=int(mi[c] == "Y")))
    d["ud"] = sorted(ud, key=lambda u: u["c"])
    by = lambda ls: sorted(ls, key=lambda l: (l[2:], l[0]))
    d["gcb"] = by(lines("GCB", "XX", lambda v: [long["GCB", v]])) + [[0xD800, 0xDFFF, "Control"]]
    d["wb"] = by(lines("WB", "XX", lambda v: [long["WB", v]]))
    d["sb"] = by(lines("SB", "XX", lambda v: [long["SB", v]]))
    d["blocks"] = sorted([[int(v.split(" ")[-1].split("..")[0], 16), int(v.split("..")[1], 16), v.rsplit(" ", 1)[0]] for lo, hi, v in props["blk"] if v != "-"] +
                         [[0xD800, 0xDB7F, "High Surrogates"], [0xDB80, 0xDBFF, "High Private Use Surrogates"], [0xDC00, 0xDFFF, "Low Surrogates"]])
    d["age"] = by(lines("age", "-", lambda v: [int(x) for x in v.split(".")])) + [[0xD800, 0xDFFF, 2, 0, 0]]
    comp = set()
    for lo, hi, v in props["compose"]:
        if v != "-":
            comp.update(int(x.split(">")[1], 16) for x in v.split())
    # the excluded characters, grouped as in the real file
    ex = sorted(u["c"] for u in ud if u["dt"] == "" and u["dm"] and u["c"] not in comp)
    d["excl"] = []
    for c in ex:
        if d["excl"] and d["excl"][-1][1] == c - 1:
            d["excl"][-1][1] = c
        else:
            d["excl"].append([c, c])
    d["idna"] = [[lo, hi, IDNAP[v.split(" ")[0]], hexs(v[2:])] for lo, hi, v in props["idna"]] + [[0xD800, 0xDFFF, "disallowed", []]]
    d["idna"].sort(key=lambda l: l[0])
    d["jamo"] = [[0x1100 + i, n] for i, n in enumerate("G GG N D DD R M B BB S SS _ J JJ C K T P H".replace("_", "").split(" "))] + \
                [[0x1161 + i, n] for i, n in enumerate("A AE YA YAE EO E YEO YE O WA WAE OE YO U WEO WE WI YU EU YI I".split(" "))] + \
                [[0x11A8 + i, n] for i, n in enumerate("G GG GS N NJ NH D L LG LM LB LS LT LP LH M B BS S SS NG J C K T P H".split(" "))]
    d["aliases"] = []
    al = {k: at("alias_" + k) for k in ALIASP}
    for c, t in at("alias_types").items():
        for k in [] if t == "-" else t[1:-1].split(", "):
            for a in al[KINDS[k]][c].split(";"):
                d["aliases"].append([c, a, KINDS[k]])
    d["nt"], d["gt"], d["wt"] = [], [], []
    d["ver"], d["iver"], d["ever"] = [10, 0, 0], [10, 0, 0], [5, 0, 0]
    return d


def full_tables(exe, ref, root, rnd):
    """Run the generator on files of the real size; its tables as runs over all characters, as UCDTables.tla reads them."""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    write_files(full_set(ref, rnd), root, rnd)
    for p in DIRS.values():
        os.makedirs(os.path.join(root, p), exist_ok=True)
    try:
        r = subprocess.run([exe], cwd=root, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
    except subprocess.TimeoutExpired:
        return [], {"what": "X01", "message": "no result on files of the real size after 600 s"}
    if r.returncode != 0:
        return [], {"what": "X01", "message": "the generator failed on files of the real size", "stderr": r.stderr.decode("utf-8", "replace")[-500:]}
    _, _, values = load_ref(ref)
    abbr = {(v["prop"], v["long"]): v["abbr"] for v in values}
    out = []
    hx = lambda s: " ".join("%04X" % int(x) for x in s.split())
    def idna(v, _):
        k, m = v[:-1].split("(", 1) if v.endswith(")") else (v, None)
        k = {"Valid": "V", "Ignored": "I", "Mapped": "M", "Deviation": "D", "Disallowed": "X", "DisallowedStd3Valid": "3V", "DisallowedStd3Mapped": "3M"}[k]
        return k if m is None else k + " " + hx(m)
    def compose(v, _):
        return "".join("%04X>%04X " % tuple(int(x) for x in p.split(" ")) for p in v.split("|"))
    yes = lambda v, _: "Y"
    plain = lambda v, _: v
    alias = lambda v, _: v.replace("|", ";")
    t = {"age/age_values": ("age", "-", lambda v, _: v.replace(" ", ".")), "bidi/bidi_class": ("bc", "L", plain),
         "bidi/bidi_mirrored": ("Bidi_M", "N", yes), "bidi/bidi_control": ("Bidi_C", "N", yes),
         "block/blocks": ("blk", "-", lambda v, e: "%s %04X..%04X" % (v, e[0], e[1])), "category/general_category": ("gc", "Cn", plain),
         "common/alphabetic": ("Alpha", "N", yes), "common/white_space": ("WSpace", "N", yes), "common/alphanumeric": ("alnum", "N", yes),
         "common/control": ("control", "N", yes), "common/numeric": ("numeric", "N", yes), "ident/id_start": ("IDS", "N", yes),
         "ident/id_continue": ("IDC", "N", yes), "ident/xid_start": ("XIDS", "N", yes), "ident/xid_continue": ("XIDC", "N", yes),
         "ident/pattern_syntax": ("Pat_Syn", "N", yes), "ident/pattern_white_space": ("Pat_WS", "N", yes),
         "normal/general_category_mark": ("mark", "N", yes), "normal/canonical_combining_class_values": ("ccc", "0", plain),
         "normal/canonical_decomposition_mapping": ("canon", "-", lambda v, _: hx(v)),
         "normal/compatibility_decomposition_mapping": ("compat", "-", lambda v, _: hx(v.split(" ", 1)[1])),
         "normal/canonical_composition_mapping": ("compose", "-", compose),
         "name/name_map": ("listed", "-", lambda v, _: v.replace("|", " ")), "name_aliases/name_alias_types": ("alias_types", "-", lambda v, _: "[%s]" % v.replace("|", ", ")),
         "idna/idna_mapping": ("idna", "X", idna)}
    for p, k in (("GCB", "segment/grapheme_cluster_break"), ("WB", "segment/word_break"), ("SB", "segment/sentence_break")):
        t[k] = (p, "XX", lambda v, _, p=p: abbr.get((p, v.split("::")[1]), v))
    for k in ALIASP:
        t["name_aliases/" + k + "s"] = ("alias_" + k, "-", alias)
    for p, n in PROPFILE.items():
        f = "case/" + n.lower()
        if n not in ("Alphabetic", "ID_Start", "ID_Continue", "XID_Start", "XID_Continue"):
            t[f] = (p, "N", yes)
    for p, n in EMOJIP.items():
        t["emoji/" + n.lower()] = (p, "N", yes)
    for name, (p, default, f) in sorted(t.items()):
        n, tab = name.split("/")
        try:
            es = read_table(os.path.join(root, DIRS[n], tab + ".rsv"), name, root)
            if name == "normal/compatibility_decomposition_mapping":
                out.append(as_runs("dt_compat", "-", [[lo, hi, abbr.get(("dt", v.split(" ", 1)[0]), v)] for lo, hi, v in es]))
            es = [[lo, hi, f(v, (lo, hi))] for lo, hi, v in es]
        except (OSError, Bad, KeyError, IndexError, TypeError, ValueError) as e:
            return out, {"what": "X01", "message": "table %s does not read back: %s %s" % (name, type(e).__name__, e)}
        out.append(as_runs(p, default, es))
    shutil.rmtree(root, ignore_errors=True)
    return out, None


def as_runs(p, default, es):
    """Entries, in the order of the table, and the default between them (a disordered table gives runs that do not join)."""
    runs = []
    def add(lo, hi, v):
        if lo > hi:
            return
        if lo <= 0xD7FF and hi >= 0xE000:
            add(lo, 0xD7FF, v)
            return add(0xE000, hi, v)
        if 0xD800 <= lo <= 0xDFFF:
            return add(0xE000, hi, v)
        if 0xD800 <= hi <= 0xDFFF:
            return add(lo, 0xD7FF, v)
        runs.append([lo, hi, v])
    nxt = 0
    for lo, hi, v in es:
        add(nxt, lo - 1, default)
        add(lo, hi, v)
        nxt = hi + 1
    add(nxt, 0x10FFFF, default)
    return {"p": p, "runs": runs}
