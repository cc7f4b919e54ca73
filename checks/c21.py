"""C21: what the brute-force finders print and count, compared with the reference search."""
import collections
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C21", rule="one search compared sequence by sequence with the reference; distinct = distinct (finder, length, symmetry or predicate, printed sequence)")
    pb = vf.probe("find")
    if not pb: c.note("the in-process monitor does not compile against this tree"); return c.finish()
    jobs = []
    for n in range(1, 8 if THOROUGH else 7):
        for w in ("naive", "optim"): jobs.append((w, n, "none"))
    for n in range(1, 7 if THOROUGH else 6): jobs.append(("q24", n, "none"))
    for n in range(1, 14 if THOROUGH else 11):
        for w in ("naive", "optim", "q24"):
            if w != "q24" or n < 10: jobs.append((w, n, "I"))
            if n % 2 == 0:
                for s in ("II", "III", "IV"):
                    if w != "q24" or n < 10: jobs.append((w, n, s))
    for n in range(1, 6 if THOROUGH else 5):
        for p in ("ws", "wts", "any", "other"): jobs.append(("williamson", n, p))
    for n in range(1, 6 if THOROUGH else 5): jobs.append(("unique", n, "-"))
    jobs.append(("williamson", 5, "wts"))
    jobs = sorted(set(jobs), key=lambda j: -j[1])
    def go(j):
        w, n, s = j; T = vf.Tree(scripts=False); x = T.run(str(pb), "verif:find", w, n, s, env=T.env(RAYON_NUM_THREADS=4), timeout=800); T.rm()
        name = f"{w} n={n} {s}"; lines = x.stdout.split("\n"); cnt = [int(l[6:]) for l in lines if l.startswith("COUNT ")]
        i = [k for k, l in enumerate(lines) if l.startswith("COUNT ")]
        lines = lines[:i[0]] if i else lines
        got = collections.Counter(l for l in lines if l)
        c.stat("searches"); c.stat(f"searches_{w}"); c.ok(1, name)
        if x.returncode or not cnt: c.bad(f"{name}: status {x.returncode}", x.stderr[-600:]); return
        if w == "unique":
            ids = [k[3] if k else None for k in vf.classify("qts", list(got.elements()))]; want = vf.enum("qts", n)
            c.ok(len(want))
            if len(ids) != len(want) or set(ids) != want: c.bad(f"{name}: {len(ids)} sequences of {len(set(ids))} classes for {len(want)} classes", "\n".join(got))
            for k in ids: c.ok(0, f"{name} {k}")
            return
        want = vf.orc(["perfect", 24 if w == "q24" else 16, n, s if w != "williamson" else "none"])
        if w == "williamson" and s != "any":
            f = [l.split() for l in vf.orc(["facts"], want)]
            if s in ("ws", "wts"): want = [q for q, z in zip(want, f) if z[dict(wts=1, ws=3)[s]] == "1"]
            else: want = [q for q, z in zip(want, f) if z[7][-1] == "+"]
        want = collections.Counter(want)
        for k in want: c.ok(1, f"{name} {k}")
        c.stat("sequences", sum(want.values()))
        if n > 5: c.sample(f"{name}: {sum(want.values())} sequences")
        if got != want:
            m, e = list((want - got).elements()), list((got - want).elements())
            c.bad(f"{name}: {len(m)} sequences missing, {len(e)} wrong or repeated ({(m + e)[0]})", f"missing {m[:20]}\nextra {e[:20]}")
        elif cnt[0] != sum(want.values()): c.bad(f"{name}: returns {cnt[0]} instead of {sum(want.values())}")
    vf.pmap(go, jobs, 4)
    return c.finish()
