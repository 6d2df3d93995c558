"""One function per property: which models TLC explores, which behaviours are replayed on the
code, which recorded traces are validated against the specification."""
import json, os, random, shutil
from vlib import *

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


SPEC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"

# ------------------------------------------------------------------ bidi ------------------
BIDI_ALL = ["L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NSM", "BN", "B", "S", "WS", "ON",
            "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"]


def uba_cfg(alphabet, n, dirs, emit, depth=125, openers=("none",), nests=(0,)):
    return SPEC + consts(MaxDepth=depth, MaxLen=n, Dirs=dirs, Alphabet=alphabet, EmitOn=emit,
                         Openers=list(openers), Nests=list(nests)) + \
        "INVARIANT " + ("EmitAll" if emit else "Sound") + "\n"


def uba_replay(c, what, plans):
    for i, (alpha, n, dirs, *deep) in enumerate(plans):
        openers, nests = deep or (("none",), (0,))
        out, st = c.tlc("bidi", "MCUBA", uba_cfg(alpha, n, dirs, True, openers=openers, nests=nests),
                        name="emit%d" % i)
        # the first plan is the one with all classes: its behaviours also with every scalar value
        got = c.run("conf-bidi", ["replay", c.seed + i, c.pick(2, 8) if i == 0 else 0, c.pick(4, 1)], stdin=out, only=what)
        c.traces += got
        if got + (0 if deep else len(dirs)) != st["distinct"] and not c.bad:
            raise ToolError("replayed %d of %d behaviours" % (got, st["distinct"]))
        c.extra["replayed_behaviours"] = c.extra.get("replayed_behaviours", 0) + got
        os.remove(out)


def uba_traces(c, only, n, deep, long):
    tr = c.path("trace.ndjson")
    c.run("conf-bidi", ["record", c.seed, n, deep, long, tr], only=["panic"])
    lines = sum(1 for _ in open(tr))
    if lines:
        out, st = c.tlc("bidi", "TraceUBA", SPEC + consts(MaxDepth=125), env={"TRACE": tr}, name="trace")
        chunks = (lines + 24) // 25
        if st["distinct"] != lines + chunks:
            raise ToolError("validated %d of %d records" % (st["distinct"] - chunks, lines))
        c.mismatches(out, tr, only)
        c.traces += lines
        with open(tr) as f:
            c.sample(json.loads(f.readline()))
    c.extra["recorded_traces"] = lines


def BIDI_DEEP(n):
    """Every continuation of up to n characters at the edge of the stack."""
    return [(["L", "R", "EN", "RLE", "LRO", "PDF", "LRI", "RLI", "PDI"], n, [0],
             ["none", "LRI", "RLI", "FSI", "LRO", "two"], [121, 122, 123, 124, 125, 127]),
            (["R", "RLE", "PDF", "RLI", "PDI"], n + 2, [0], ["none", "LRI", "two"], [122, 123, 124, 126])]


@check("B01")
def b01(c):
    c.build("bidi")
    # design invariants of the specification, including stack overflow at a small depth
    c.tlc("bidi", "MCUBA", uba_cfg(["L", "R", "EN", "LRE", "RLO", "PDF", "RLI", "FSI", "PDI", "BN"],
          c.pick(4, 5), [0, 1000], False, depth=3), name="design_small_depth")
    plans = [
        (BIDI_ALL, 3, [0, 1, 1000]),
        (["L", "R", "AL", "EN", "AN", "CS", "ET", "NSM", "BN", "ON"], 5, [0]),
        (["R", "EN", "ES", "ET", "NSM", "RLE", "PDF", "RLI", "PDI", "ON"], 5, [1]),
    ] + BIDI_DEEP(3) if c.quick else [
        (BIDI_ALL, 4, [0, 1]),
        (["L", "R", "AL", "EN", "AN", "CS", "ET", "NSM", "ON"], 6, [0]),
        (["R", "EN", "RLE", "LRO", "PDF", "RLI", "FSI", "PDI", "BN"], 6, [1]),
    ] + BIDI_DEEP(4)
    uba_replay(c, ["levels", "panic"], plans)
    uba_traces(c, ["B01"], c.pick(2500, 20000), c.pick(150, 1500), c.pick(400, 4000))
    c.sample({"behaviour": "class string + base direction -> expected level per character"})


@check("B02")
def b02(c):
    c.build("bidi")
    c.tlc("bidi", "MCUBA", uba_cfg(["L", "R", "EN", "B", "FSI", "LRI", "PDI"], c.pick(4, 5), [0, 1000], False),
          name="design")
    plans = [
        (BIDI_ALL, 3, [0, 1, 1000]),
        (["L", "AL", "B", "FSI", "RLI", "PDI", "ON"], c.pick(6, 7), [1000]),
    ]
    uba_replay(c, ["paragraphs", "panic"], plans)
    uba_traces(c, ["B02"], c.pick(2500, 20000), c.pick(100, 800), c.pick(200, 2000))


@check("B03")
def b03(c):
    c.build("bidi")
    c.tlc("bidi", "MCUBA", uba_cfg(["L", "R", "AN", "B", "S", "WS", "RLE", "RLI", "PDI", "BN"],
          c.pick(4, 5), [0, 1], False), name="design")
    plans = [(BIDI_ALL, c.pick(2, 3), [0, 1]),     # also with every scalar value
             (["L", "R", "AN", "B", "S", "WS", "ON", "RLI", "PDI", "RLE", "BN"], c.pick(4, 5), [0, 1]),
             (["R", "AL", "EN", "NSM", "ON", "WS"], c.pick(4, 5), [0, 1]),
             (["L", "R", "EN", "WS", "RLI", "LRI", "PDI"], c.pick(5, 6), [0]),
             (["L", "R", "EN", "RLE", "LRE"], 5, [1, 2])]
    for i, (alpha, n, dirs) in enumerate(plans):
        out, st = c.tlc("bidi", "MCLines", uba_cfg(alpha, n, dirs, True).replace("EmitAll", "LinesSound EmitLines"),
                        name="lines%d" % i)
        got = c.run("conf-bidi", ["lines", c.seed + i, c.pick(2, 8) if i == 0 else 0, c.pick(4, 1)], stdin=out, only=["lines", "panic"])
        if got + len(dirs) != st["distinct"] and not c.bad:
            raise ToolError("replayed %d of %d behaviours" % (got, st["distinct"]))
        c.traces += got
        os.remove(out)
    uba_traces(c, ["B03"], c.pick(6000, 60000), c.pick(150, 1500), c.pick(400, 4000))


@check("B04")
def b04(c):
    c.build("bidi")
    out, st = c.tlc("bidi", "Level", SPEC + consts(MaxExplicit=125, MaxImplicit=126,
                    Amounts=[0, 1, 2, 3, 125, 126, 255]) +
                    "INVARIANTS Bounded EmitAll\nPROPERTY FailureKeeps\n")
    n = c.run("conf-bidi", ["level"], stdin=out)
    c.traces += n
    c.extra["exhaustive"] = True
    c.sample({"op": "raise", "level": 125, "amount": 1, "expected": [True, 126]})


# -------------------------------------------------------------- segmentation --------------
GSEQ = ["CR", "LF", "CN", "EX", "ZWJ", "RI", "PP", "SM", "L", "V", "T", "LV", "LVT", "EB", "EBG",
        "EM", "GAZ", "XX"]
WSEQ = ["CR", "LF", "NL", "Extend", "ZWJ", "RI", "FO", "KA", "HL", "LE", "SQ", "DQ", "MB", "ML",
        "MN", "NU", "EX", "EB", "EM", "GAZ", "EBG", "XX"]
GINV = "INVARIANTS Refines LegacyRefinesExtended NeverInsideCRLF SuffixClosed\n"
WINV = "INVARIANTS Refines SuffixClosed PrefixClosed NeverInsideCRLF\n"


def gcodes(*names):
    return ",".join(str(GSEQ.index(n) + 1) for n in names)


def wcodes(*names):
    return ",".join(str(WSEQ.index(n) + 1) for n in names)


def seg_dfa(c, word, hist):
    """Checks the finite transition system against the rules, then emits all of it."""
    mod, alpha, inv = ("WordDFA", WSEQ, WINV) if word else ("GraphemeDFA", GSEQ, GINV)
    c.tlc("segment", mod, SPEC + consts(Hist=hist, Alphabet=alpha) + inv, name=mod + "_refines")
    out, st = c.tlc("segment", mod, SPEC + consts(Hist=0, Alphabet=alpha) + "INVARIANT EmitAll\n",
                    name=mod + "_emit")
    c.extra["transitions_of_the_finite_system"] = st["distinct"] * len(alpha)
    return out


def seg_traces(c, kinds, gdfa, ncur, niter):
    tr = c.path("trace.ndjson")
    c.run("conf-seg", ["record", c.seed, ncur, niter, tr, gdfa])
    lines = sum(1 for _ in open(tr))
    out, st = c.tlc("segment", "TraceSegment", SPEC, env={"TRACE": tr}, name="trace")
    c.mismatches(out, tr, kinds)
    c.traces += lines
    c.extra["recorded_traces"] = lines
    with open(tr) as f:
        c.sample(json.loads(f.readline()))


def seg_replay(c, args, only):
    n = c.run("conf-seg", args, only=only)
    c.traces += n


@check("G01")
def g01(c):
    c.build("seg")
    d = seg_dfa(c, False, c.pick(4, 5))
    seg_replay(c, ["iter", "g", d, c.seed, 4, c.pick(100000, 2000000)], ["forward"])
    seg_replay(c, ["pump", "g", d, c.seed, c.pick(2, 3), c.pick(20000, 400000)], ["forward"])
    seg_replay(c, ["iter", "g", d, c.seed, c.pick(6, 8), 0, gcodes("RI", "EX", "ZWJ", "EB", "EM", "GAZ")], ["forward"])
    seg_replay(c, ["chars", "g", d, c.seed, c.pick(3, 20)], ["forward"])


@check("G02")
def g02(c):
    c.build("seg")
    d = seg_dfa(c, False, 3)
    seg_replay(c, ["cursor", d, c.seed, c.pick(3, 4), c.pick(150000, 1500000)], ["cursor"])
    seg_replay(c, ["cursor", d, c.seed, c.pick(4, 5), 0, gcodes("RI", "EX", "EB", "EM", "PP", "ZWJ", "CN")], ["cursor"])
    seg_traces(c, ["cursor"], d, c.pick(600, 6000), 0)


@check("G03")
def g03(c):
    c.build("seg")
    d = seg_dfa(c, False, 4)
    seg_replay(c, ["iter", "g", d, c.seed, 4, c.pick(100000, 2000000)], ["both"])
    seg_replay(c, ["pump", "g", d, c.seed, c.pick(2, 3), c.pick(20000, 400000)], ["both"])
    seg_replay(c, ["iter", "g", d, c.seed, c.pick(6, 8), 0, gcodes("RI", "EX", "EB", "EM", "PP", "ZWJ")], ["both"])
    seg_traces(c, ["grapheme"], d, 0, c.pick(1000, 8000))


@check("W01")
def w01(c):
    c.build("seg")
    d = seg_dfa(c, True, c.pick(4, 4))
    seg_replay(c, ["iter", "w", d, c.seed, 4, c.pick(100000, 2000000)], ["forward"])
    seg_replay(c, ["pump", "w", d, c.seed, c.pick(2, 3), c.pick(20000, 400000)], ["forward"])
    for sub in W_SUBS:
        seg_replay(c, ["iter", "w", d, c.seed, c.pick(6, 7), 0, wcodes(*sub)], ["forward"])
    seg_replay(c, ["chars", "w", d, c.seed, c.pick(3, 20)], ["forward"])


W_SUBS = [("HL", "LE", "SQ", "DQ", "MB", "EX", "Extend"), ("NU", "MN", "MB", "LE", "FO", "RI", "CR"),
          ("RI", "Extend", "ZWJ", "GAZ", "EB", "EM", "KA")]


@check("W02")
def w02(c):
    c.build("seg")
    d = seg_dfa(c, True, 4)
    g = seg_dfa(c, False, 3)
    seg_replay(c, ["iter", "w", d, c.seed, 4, c.pick(100000, 2000000)], ["both"])
    seg_replay(c, ["pump", "w", d, c.seed, c.pick(2, 3), c.pick(20000, 400000)], ["both"])
    for sub in W_SUBS:
        seg_replay(c, ["iter", "w", d, c.seed, c.pick(5, 7), 0, wcodes(*sub)], ["both"])
    seg_traces(c, ["word"], g, 0, c.pick(1000, 8000))


# --------------------------------------------------------------- character data -----------
BLOCK = 200
TRACECFG = SPEC + "CONSTANT Block = %d\nINVARIANT Check\n" % BLOCK
JOINT = ("gc,bc,age,blk,Lower,Upper,Cased,CI,CWL,CWU,CWT,CWCF,CWCM,Alpha,alnum,control,numeric,WSpace,syllable,"
         "IDS,IDC,XIDS,XIDC,Pat_Syn,Pat_WS,ccc,dt,mark,GCB,SB,WB,Emoji,EPres,EMod,EBase,EComp,nonchar,private,"
         "Bidi_C,Bidi_M,canon,compat,nmkind,ltr,rtl,explicit,idna")


def lines_of(path):
    return sum(1 for _ in open(path))


def data_check(c, module, tr, env_only=None, cfg=TRACECFG, spec="ucd"):
    """Validate every record of a trace; the number of states is the number of records."""
    n = lines_of(tr)
    out, st = c.tlc(spec, module, cfg, env={"TRACE": tr}, name=module)
    if st["distinct"] != n:
        raise ToolError("validated %d of %d records" % (st["distinct"], n))
    c.mismatches(out, tr, env_only)
    c.traces += n
    c.extra[module + "_records"] = n
    return out


def table_check(c, args, name):
    tr = c.path(name + ".ndjson")
    c.run("conf-ucd", args[:1] + [tr] + args[1:])
    if os.path.exists(tr):
        tables_valid(c, tr, name)


def tables_valid(c, tr, name):
    """Validate tables given as runs over all characters against the reference."""
    out, st = c.tlc("ucd", "UCDTables", SPEC + "CONSTANT Block = %d\nINVARIANT Agrees\n" % BLOCK,
                    env={"TRACE": tr}, name=name)
    runs = 0
    blocks = 0
    for l in open(tr):
        r = json.loads(l)
        runs += len(r["runs"])
        blocks += (len(r["runs"]) + BLOCK - 1) // BLOCK
    if st["distinct"] != blocks:
        raise ToolError("validated %d of %d blocks" % (st["distinct"], blocks))
    c.mismatches(out)
    c.traces += runs
    c.extra[name + "_runs"] = runs


@check("T01")
def t01(c):
    c.build("ucd")
    table_check(c, ["dump"], "tables")
    c.extra["scalar_values"] = 1112064
    c.extra["exhaustive"] = True


@check("T03")
def t03(c):
    c.build("ucd")
    tr = c.path("values.ndjson")
    c.run("conf-ucd", ["values", tr, c.seed, c.pick(3, 40)])
    data_check(c, "UCDValues", tr)
    with open(tr) as f:
        c.sample(json.loads(f.readline()))


@check("T04")
def t04(c):
    c.build("ucd")
    tr = c.path("joint.ndjson")
    c.run("conf-ucd", ["joint", tr, JOINT])
    data_check(c, "UCDDerive", tr)
    c.extra["exhaustive"] = True


@check("T05")
def t05(c):
    c.build("ucd")
    tr = c.path("order.ndjson")
    c.run("conf-ucd", ["order", tr])
    data_check(c, "UCDOrder", tr)
    c.extra["exhaustive"] = True


@check("T06")
def t06(c):
    c.build("ucd")
    tr = c.path("names.ndjson")
    c.run("conf-ucd", ["names", tr, c.pick(2000000, 30000000), c.seed])
    data_check(c, "UCDNames", tr, cfg=SPEC + "INVARIANT Check\n")
    table_check(c, ["dump", "name"], "name")


# ------------------------------------------------------------ ranges and tables -----------
KINDS = [0, 1, 2, 10, 11, 12, 20, 21, 22, 99]
REALCP = dict(MaxCP=1114111, GapLo=55296, GapHi=57343)
RBOUNDS = [0, 1, 2, 97, 55294, 55295, 57344, 57345, 65536, 1114110, 1114111]


def range_design(c, steps):
    """The design (a pair of scalar values) refines the abstract set on a small code space."""
    c.tlc("chars", "CharRange", SPEC + consts(MaxCP=9, GapLo=4, GapHi=5, Bounds=[0, 1, 2, 3, 6, 7, 8, 9],
          Kinds=KINDS, Ops=[1, 2, 101, 102], Steps=steps, EmitOn=False) + "INVARIANTS Refines SetView\n", name="design")
    c.tlc("chars", "CharRange", SPEC + consts(MaxCP=7, GapLo=3, GapHi=4, Bounds=[0, 1, 2, 5, 6, 7],
          Kinds=KINDS, Ops=[1, 101], Steps=7, EmitOn=False) + "INVARIANTS Refines SetView\n", name="design_single")


def range_replay(c, what, bounds, ops, steps, name):
    out, st = c.tlc("chars", "CharRange", SPEC + consts(Bounds=bounds, Kinds=KINDS + [98], Ops=ops, Steps=steps,
                    EmitOn=True, **REALCP) + "INVARIANTS Refines EmitAll\n", name=name)
    c.traces += c.run("conf-chars", ["ranges"], stdin=out, only=[what])
    os.remove(out)


def char_traces(c, kinds, nr, npar, nt):
    tr = c.path("trace.ndjson")
    c.run("conf-chars", ["record", c.seed, nr, npar, nt, tr], only=[k for k in
          {"range": "R02", "par": "R02par", "table": "table"}.values()])
    data_check(c, "TraceChars", tr, kinds, cfg=SPEC + "INVARIANT Check\n", spec="chars")
    with open(tr) as f:
        c.sample(json.loads(f.readline()))


@check("R01")
def r01(c):
    c.build("chars")
    range_design(c, c.pick(2, 3))
    more = [] if c.quick else [3, 127, 128, 0x7ff, 0x800, 0xfffd, 0xffff, 0x10001, 0x100000, 55293, 57346]
    range_replay(c, "R01", RBOUNDS + [98, 99, 55293, 57346, 196607, 196608, 1114109] + more, [1], 0, "build")
    # bounds left over by stepping are ranges too
    range_replay(c, "R01", RBOUNDS, [1, 101], 2, "stepped")
    char_traces(c, ["range"], c.pick(400, 4000), 0, 0)


@check("R02")
def r02(c):
    c.build("chars")
    range_design(c, c.pick(3, 4))
    range_replay(c, "R02", RBOUNDS, [1, 2, 101, 102], c.pick(4, 5), "steps")
    range_replay(c, "R02", [0, 1, 97, 98, 99, 55294, 55295, 57344, 57345, 1114110, 1114111], [1, 101], c.pick(7, 10), "single")
    out, st = c.tlc("chars", "ParSplit", SPEC + consts(Sizes=[0, 1, 2, 3, 5], Splits=c.pick(3, 4), EmitOn=True) +
                    "INVARIANTS Covers EmitAll\n")
    c.traces += c.run("conf-chars", ["splits", c.seed], stdin=out)
    char_traces(c, ["range", "par"], c.pick(400, 4000), c.pick(400, 4000), 0)


@check("T02")
def t02(c):
    c.build("chars")
    for direct, n, vals in ([(False, 7, [1, 2]), (True, 9, [1, 2]), (False, 10, [1])] if c.quick else
                            [(False, 8, [1, 2]), (True, 11, [1, 2]), (False, 12, [1])]):
        name = "%s%d" % ("direct" if direct else "range", n)
        out, st = c.tlc("chars", "CharTable", SPEC + consts(N=n, Values=vals, MaxLen=n + 1, Direct=direct, EmitOn=True) +
                        "INVARIANTS WellFormed Function EmitAll\n", name=name)
        c.traces += c.run("conf-chars", ["tables", c.seed], stdin=out)
        c.extra["tables_" + name] = st["distinct"]
        os.remove(out)
    char_traces(c, ["table"], 0, 0, c.pick(1500, 15000))


# -------------------------------------------------------------- normalization -------------
NALPHA = [
    # marks of several classes, precomposed letters, non-starter decompositions, exclusions,
    # starters composing with starters
    [97, 769, 803, 772, 837, 7693, 836, 3955, 3953, 2503, 2494, 64285, 10972, 119134],
    # Hangul: L V T LV LVT, U+11A7, and compatibility jamo
    [4352, 4370, 4449, 4469, 4519, 4520, 4546, 44032, 44033, 55203, 12593, 769],
    # compatibility characters, chains of decompositions, singletons
    [8491, 64256, 64261, 775, 383, 7835, 453, 8230, 937, 8486, 64285, 1474, 956, 181],
    # supplementary compositions and marks of equal class
    [69937, 69927, 69938, 70471, 70462, 70487, 119127, 119141, 119146, 119150, 776, 97, 818],
]
NDEEP = [[97, 769, 803, 837, 7693], [4352, 4449, 4520, 44032, 769], [3545, 3530, 3535, 3551, 775]]


def normal_models(c, what):
    c.tlc("normal", "NormalSteps", SPEC + consts(Alphabet=[97, 769, 803, 837, 7693, 836, 3955, 44033], MaxLen=c.pick(3, 4)) +
          "INVARIANTS Equivalent Terminal\n", name="rewriting")
    for i, (al, n) in enumerate([(a, c.pick(3, 4)) for a in NALPHA] + [(a, c.pick(5, 7)) for a in NDEEP]):
        out, st = c.tlc("normal", "MCNormal", SPEC + consts(Alphabet=al, MaxLen=n, EmitOn=True) +
                        "INVARIANTS Sound EmitAll\n", name="emit%d" % i)
        got = c.run("conf-normal", ["replay", c.seed + i], stdin=out, only=[what])
        if got != st["distinct"] and not c.bad:
            raise ToolError("replayed %d of %d" % (got, st["distinct"]))
        c.traces += got
        os.remove(out)


def normal_trace(c, what, args, name):
    tr = c.path(name + ".ndjson")
    c.run("conf-normal", [tr if a == "OUT" else a for a in args], only=[what])
    if not os.path.exists(tr):
        return
    n = lines_of(tr)
    out, st = c.tlc("normal", "TraceNormal", TRACECFG.replace("200", "40") if name in ("texts", "contexts") else TRACECFG,
                    env={"TRACE": tr}, name=name)
    if st["distinct"] != n:
        raise ToolError("validated %d of %d records" % (st["distinct"], n))
    c.mismatches(out, tr, [what])
    c.traces += n
    c.extra[name + "_records"] = n
    with open(tr) as f:
        c.sample(json.loads(f.readline()))


@check("N01")
def n01(c):
    c.build("normal")
    normal_models(c, "N01")
    normal_trace(c, "N01", ["chars", "OUT"], "chars")
    normal_trace(c, "N01", ["contexts", c.seed, c.pick(2, 12), c.pick(12, 2), "OUT"], "contexts")
    normal_trace(c, "N01", ["record", c.seed, c.pick(3000, 30000), 16, "OUT"], "texts")


@check("N02")
def n02(c):
    c.build("normal")
    normal_models(c, "N02")
    normal_trace(c, "N02", ["chars", "OUT"], "chars")
    normal_trace(c, "N02", ["pairs", "OUT", c.seed, c.pick(2000000, 40000000)], "pairs")
    normal_trace(c, "N02", ["contexts", c.seed + 1, c.pick(2, 12), c.pick(12, 2), "OUT"], "contexts")
    normal_trace(c, "N02", ["record", c.seed, c.pick(3000, 30000), 16, "OUT"], "texts")


@check("N03")
def n03(c):
    c.build("normal")
    normal_trace(c, "N03", ["syllables", "OUT"], "syllables")
    normal_trace(c, "N03", ["pairs", "OUT", c.seed, c.pick(2000000, 40000000)], "pairs")
    out, st = c.tlc("normal", "MCNormal", SPEC + consts(Alphabet=NALPHA[1], MaxLen=c.pick(4, 5), EmitOn=True) +
                    "INVARIANTS Sound EmitAll\n", name="jamo")
    c.traces += c.run("conf-normal", ["replay", c.seed], stdin=out)
    os.remove(out)


# ---------------------------------------------------------------- IDNA --------------------
IDNA_TOKENS = list(range(1, 41)) + [45]


def idna_models(c, what):
    plans = [(IDNA_TOKENS, 2, 1),
             ([1, 2, 3, 4, 7, 8, 9, 10, 13, 14, 16, 17, 19, 20, 22, 23, 26, 27, 28, 31], 3, 1),
             ([1, 2, 3, 5, 17, 18, 19, 22, 23, 25], 4, 4), ([3, 14, 15, 16, 26, 39, 31, 40], 4, 5),
             ([1, 2, 14, 7, 41, 42, 43, 44], 3, 2), ([1, 2, 14, 33], 5, 3)] if c.quick else \
            [(IDNA_TOKENS, 3, 1),
             ([1, 2, 3, 7, 8, 9, 10, 14, 16, 17, 19, 20, 22, 23, 26, 27], 4, 1),
             ([1, 2, 3, 5, 17, 18, 19, 22, 23, 25], 5, 4), ([3, 14, 15, 16, 26, 39, 31, 40], 5, 5),
             ([1, 2, 14, 7, 41, 42, 43, 44], 4, 2), ([1, 2, 14, 33, 4, 8], 6, 3)]
    for i, (toks, n, which) in enumerate(plans):
        out, st = c.tlc("idna", "MCIdna", SPEC + consts(Tokens=toks, MaxLen=n, Which=which, EmitOn=True) +
                        "INVARIANTS Sound EmitAll\n", name="emit%d" % i)
        got = c.run("conf-idna", ["domains"], stdin=out, only=[what])
        if got != st["distinct"] and not c.bad:
            raise ToolError("replayed %d of %d" % (got, st["distinct"]))
        c.traces += got
        os.remove(out)


def idna_trace(c, what, args, name, block=40):
    tr = c.path(name + ".ndjson")
    c.run("conf-idna", [tr if a == "OUT" else a for a in args], only=[what])
    if not os.path.exists(tr):
        return
    n = lines_of(tr)
    out, st = c.tlc("idna", "TraceIdna", TRACECFG.replace("200", str(block)), env={"TRACE": tr}, name=name)
    if st["distinct"] != n:
        raise ToolError("validated %d of %d records" % (st["distinct"], n))
    c.mismatches(out, tr, [what])
    c.traces += n
    c.extra[name + "_records"] = n
    with open(tr) as f:
        c.sample(json.loads(f.readline()))


@check("D01")
def d01(c):
    c.build("idna")
    idna_models(c, "D01")
    idna_trace(c, "D01", ["singles", "OUT"], "singles", 100)
    idna_trace(c, "D01", ["record", c.seed, c.pick(6000, 60000), "OUT"], "domains")


@check("D02")
def d02(c):
    c.build("idna")
    idna_models(c, "D02")
    idna_trace(c, "D02", ["singles", "OUT"], "singles", 100)
    idna_trace(c, "D02", ["record", c.seed + 1, c.pick(6000, 60000), "OUT"], "domains")


@check("D03")
def d03(c):
    c.build("idna")
    plans = [([97, 98, 122, 57, 45, 233], 5, 1), ([97, 122, 57, 45, 90, 64], 5, 2), ([97, 98, 104, 122, 57, 48], 5, 3),
             ([97, 122, 57, 120], 4, 4)]
    if not c.quick:
        plans = [(a + [113, 65], n + 1, w) for a, n, w in plans]
    for i, (al, n, w) in enumerate(plans):
        puny_replay(c, al, n, w, True, "dec%d" % i)
    plans = [([97, 45, 128, 129, 255, 0x5d0, 55295, 57344, 1114111], 4, 5), ([122, 128, 0x4e00, 0x4e01, 1114110], 5, 1),
             ([97, 255, 256, 0x7ff, 0x800, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0x20000], 4, 1)]
    if not c.quick:
        plans = [(a + [65, 0x7ff], n + 1, w) for a, n, w in plans]
    for i, (al, n, w) in enumerate(plans):
        puny_replay(c, al, n, w, False, "enc%d" % i)
    idna_trace(c, "D03", ["every", c.seed, c.pick(8, 1), "OUT"], "every")
    idna_trace(c, "D03", ["codec", c.seed, c.pick(4000, 40000), "OUT"], "codec")


def puny_replay(c, al, n, which, dec, name):
    out, st = c.tlc("idna", "MCPunycode", SPEC + consts(Alphabet=al, MaxLen=n, Which=which, Decoding=dec, EmitOn=True) +
                    "INVARIANTS Sound EmitAll\n", name=name)
    got = c.run("conf-idna", ["puny"], stdin=out)
    if got < st["distinct"] and not c.bad:      # start states reached twice are printed once each
        raise ToolError("replayed %d of %d" % (got, st["distinct"]))
    c.traces += got
    os.remove(out)


# ---------------------------------------------------------------- notations ---------------
def cli_trace(c, args, name, block):
    tr = c.path(name + ".ndjson")
    c.run("conf-cli", [tr if a == "OUT" else a for a in args])
    if not os.path.exists(tr):
        return
    n = lines_of(tr)
    out, st = c.tlc("cli", "TraceNotation", TRACECFG.replace("200", str(block)), env={"TRACE": tr}, name=name)
    if st["distinct"] != n:
        raise ToolError("validated %d of %d records" % (st["distinct"], n))
    c.mismatches(out, tr, ["L01"])
    c.traces += n
    c.extra[name + "_records"] = n
    with open(tr) as f:
        c.sample(json.loads(f.readline()))


@check("L01")
def l01(c):
    c.build("cli")
    chars = [0, 9, 10, 13, 32, 34, 39, 92, 97, 126, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111]
    for name, mode, al, n in [("write", 0, chars, c.pick(3, 4)), ("points", 1, [2, 3, 4, 7], 2), ("points3", 1, [2], c.pick(3, 4)),
                              ("utf8", 2, [2, 6, 8], 2), ("utf8x", 2, [2], c.pick(3, 4)), ("utf16", 3, [2, 5, 8], c.pick(3, 4))]:
        out, st = c.tlc("cli", "MCNotation", SPEC + consts(Alphabet=al, MaxLen=n, Mode=mode, EmitOn=True) +
                        "INVARIANTS RoundTrip Sound EmitAll\n", name=name)
        got = c.run("conf-cli", ["replay"], stdin=out)
        if got != st["distinct"] and not c.bad:
            raise ToolError("replayed %d of %d" % (got, st["distinct"]))
        c.traces += got
        os.remove(out)
    for i in range(c.pick(1, 16)):
        cli_trace(c, ["blocks", "OUT", c.seed + i, 16], "blocks%d" % i, 100)
        if os.path.exists(c.path("blocks%d.ndjson" % i)):
            os.remove(c.path("blocks%d.ndjson" % i))
    cli_trace(c, ["record", c.seed, c.pick(3000, 60000), "OUT"], "texts", 100)
    cli_trace(c, ["lists", c.seed, c.pick(30000, 400000), "OUT"], "lists", 200)
    cli_trace(c, ["echo", c.seed, c.pick(1500, 10000), "OUT"], "echo", 50)


@check("L02")
def l02(c):
    c.build("cli")
    tr = c.path("inspect.ndjson")
    c.run("conf-cli", ["inspect", c.seed, c.pick(8, 1), c.pick(400, 4000), tr])
    data_check(c, "UCDInspect", tr, ["L02"], cfg=TRACECFG.replace("200", "20"))


@check("T07")
def t07(c):
    c.build("ucd", "cli")
    tr = c.path("versions.ndjson")
    c.run("conf-ucd", ["versions", tr, c.pick(60, 400), c.seed])
    data_check(c, "UCDVersions", tr)


# ---------------------------------------------------------- the table generator ----------
@check("X01")
def x01(c):
    import gendata
    c.build("gen")
    # the design: every layout of a cluster of characters in a data file, with and without the gap
    plans = None
    for gap in (5, 2, 1, 4):
        out, st = c.tlc("gen", "TableGen", SPEC + consts(N=c.pick(5, 6) if gap != 5 else 5, Gap=gap, Values=[1, 2], EmitOn=gap == 5) +
                        "INVARIANTS Sound Partial EmitAll\n", name="design%d" % gap)
        if gap == 5:
            plans = sorted({l.strip() for l in open(out) if l.startswith('"<<\\"PLAN')})
            plans = [json.loads(p[p.index(",") + 1:-3].replace("<<", "[").replace(">>", "]")) for p in plans]
    if len(plans) != 571:
        raise ToolError("%d layouts" % len(plans))
    n = c.pick(571, 571 * 6)
    exe = os.path.join(TARGET, "release", "conf-unic-gen")
    root = c.path("scratch")
    tr = c.path("runs.ndjson")
    got = 0
    tables = 0
    with open(tr, "w") as f:
        for rec, bad in gendata.run_all(exe, plans, range(n), c.seed, root):
            if bad:
                if len(c.bad) < 40:
                    c.violation(bad)
            else:
                f.write(json.dumps(rec) + "\n")
                got += 1
                tables += len(rec["out"])
    shutil.rmtree(root, ignore_errors=True)
    c.evaluations += tables
    c.extra["generator_runs"] = n
    c.extra["tables_validated"] = tables
    if got:
        out, st = c.tlc("gen", "TraceGen", TRACECFG.replace("200", "12"), env={"TRACE": tr}, name="runs")
        if st["distinct"] != got:
            raise ToolError("validated %d of %d records" % (st["distinct"], got))
        c.mismatches(out, tr, ["X01"])
        c.traces += got
    # files of the real size: the tables must denote the reference the files were laid out from
    tr = c.path("real.ndjson")
    tabs, bad = gendata.full_tables(exe, REF, root, random.Random(c.seed))
    shutil.rmtree(root, ignore_errors=True)
    if bad:
        return c.violation(bad)
    if len(tabs) != 48:
        raise ToolError("%d tables" % len(tabs))
    with open(tr, "w") as f:
        for x in tabs:
            f.write(json.dumps(x) + "\n")
    tables_valid(c, tr, "real")
