#!/usr/bin/env python3
"""spec/ucd/ref/normal.ndjson: the decomposition mappings and combining classes of props.ndjson as numbers
(Normal.tla checks that the two files agree)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "ucd", "ref")
P = {}
for l in open(os.path.join(R, "props.ndjson")):
    r = json.loads(l)
    P[r["p"]] = r["runs"]
dec = []
for p, t in (("canon", 1), ("compat", 2)):
    for lo, hi, v in P[p]:
        if v != "-":
            for c in range(lo, hi + 1):
                dec.append([c, t, [int(x, 16) for x in v.split()]])
dec.sort()
assert len({d[0] for d in dec}) == len(dec)


def paged(f):
    """two-stage table: page number of each block of 256 code points below U+30000, and the pages"""
    pages, index = [], []
    for b in range(0x300):
        pg = [f.get(b * 256 + i, 0) for i in range(256)]
        if pg not in pages:
            pages.append(pg)
        index.append(pages.index(pg) + 1)
    return {"index": index, "pages": pages}


ccc = {c: int(v) for lo, hi, v in P["ccc"] if v != "0" for c in range(lo, hi + 1)}
assert max(ccc) < 0x30000 and dec[-1][0] < 0x30000
out = [dict(kind="ccc", **paged(ccc)),
       dict(kind="dec", map=dec, **paged({d[0]: i + 1 for i, d in enumerate(dec)}))]
with open(os.path.join(R, "normal.ndjson"), "w") as f:
    for r in out:
        f.write(json.dumps(r, separators=(",", ":")) + "\n")
