#!/usr/bin/env python3
"""spec/ucd/ref/idna.ndjson: IDNA mapping, Bidi class and General_Category=Mark of props.ndjson as two-stage
tables of numbers."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "ucd", "ref")
P = {}
for l in open(os.path.join(R, "props.ndjson")):
    r = json.loads(l)
    P[r["p"]] = r["runs"]
STATUS = {"V": 1, "I": 2, "M": 3, "D": 4, "X": 5, "3V": 6, "3M": 7}
BC = ["L", "R", "AL", "EN", "AN", "ES", "ET", "CS", "NSM", "BN", "B", "S", "WS", "ON",
      "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"]
vals, vidx = [], {}
f = [0] * 0x110000
for lo, hi, v in P["idna"]:
    if v not in vidx:
        k, _, m = v.partition(" ")
        vals.append([STATUS[k], [int(x, 16) for x in m.split()]])
        vidx[v] = len(vals)
    for c in range(lo, hi + 1):
        f[c] = vidx[v]
b = [0] * 0x110000
for lo, hi, v in P["bc"]:
    for c in range(lo, hi + 1):
        b[c] = BC.index(v) + 1
m = [0] * 0x110000
for lo, hi, v in P["mark"]:
    if v == "Y":
        for c in range(lo, hi + 1):
            m[c] = 1
for c in range(0xD800, 0xE000):      # not scalar values: never looked up
    f[c] = f[0xD7FF]


def paged(f):
    pages, index = {}, []
    for k in range(0x1100):
        pg = tuple(f[k * 256:k * 256 + 256])
        index.append(pages.setdefault(pg, len(pages) + 1))
    return {"index": index, "pages": [list(p) for p in pages]}


with open(os.path.join(R, "idna.ndjson"), "w") as o:
    for r in (dict(kind="idna", values=vals, **paged(f)), dict(kind="bc", names=BC, **paged(b)), dict(kind="mark", **paged(m))):
        o.write(json.dumps(r, separators=(",", ":")) + "\n")
