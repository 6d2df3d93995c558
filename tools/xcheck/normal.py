#!/usr/bin/env python3
"""Cross-check of Normal.tla against Python's unicodedata: reads the output of MCNormal on stdin."""
import re, sys, unicodedata
n = bad = 0
for l in sys.stdin:
    if not l.startswith('"<<'): continue
    v = eval(re.sub(r">>", "]", re.sub(r"<<", "[", l.strip()[1:-1])))
    s = "".join(map(chr, v[0])); n += 1
    for f, w in zip(("NFD", "NFKD", "NFC", "NFKC"), v[1:]):
        if list(map(ord, unicodedata.normalize(f, s))) != w:
            bad += 1; print(f, v[0], w)
print(n, bad)
