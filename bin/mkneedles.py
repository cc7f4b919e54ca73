#!/usr/bin/env python3
"""Regenerates data/needles.txt: genuine sequences of every length up to 31 ("type n class-id"), from the
oracle's own Williamson enumeration, the published wts-results (checked by the oracle), and products of
perfect sequences.  Run by hand; the file is committed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
out = set()
def add(t, seqs):
    for s, c in zip(seqs, vf.classify(t, seqs)):
        if c and c[1]: out.add((t, c[0], c[3]))
ws = []
for n in range(1, 32):
    x = vf.orc(["wsenum", n], timeout=3000)
    for s in x: out.add(("ws", n, s))
    ws += x
# a Williamson sequence is Williamson-type and QT
add("wts", ws); add("qts", ws)
wts = []
for n in range(1, 22):
    for f in ("result.seq", "result-qts.seq"):
        wts += (vf.REPO / "wts-results" / f"find_{n}" / f).read_text().split()
add("wts", wts); add("qts", wts)
for n in range(1, 14): add("qts", sorted(vf.enum("qts", n)))
for n in range(1, 17): add("wts", sorted(vf.enum("wts", n)))
# products of perfect sequences of coprime lengths
qts = sorted({s for t, n, s in out if t == "qts" and n <= 15})
pairs = []
from math import gcd
for i, a in enumerate(qts):
    for b in qts:
        if len(a) > 1 and len(b) > 1 and gcd(len(a), len(b)) == 1 and 22 <= len(a) * len(b) <= 31: pairs.append((a, b))
pr = [p for p in vf.orc(["product"], [f"{a} {b}" for a, b in pairs]) if p != "none"]
add("qts", pr); add("wts", pr)
(vf.VERIF / "data" / "needles.txt").write_text("".join(f"{t} {n} {s}\n" for t, n, s in sorted(out)))
from collections import Counter
for (t, n), k in sorted(Counter((t, n) for t, n, _ in out).items()): print(t, n, k, end="; ")
