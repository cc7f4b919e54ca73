"""C10: rowsums and candidate sequences, in process and in the files of the pair generation."""
import vf, common, math
from vf import THOROUGH, OPTS, PAIRINGS
def comb(n, s): return math.comb(n, (n + s) // 2) if abs(s) <= n and (n + s) % 2 == 0 else 0
def symcount(n, s):
    """symmetric +-1 sequences of length n and sum s: entry 0 (and n/2) free, the others in pairs"""
    k = (n - 1) // 2; r = 0
    for e in range(2 if n % 2 == 0 else 1, -(2 if n % 2 == 0 else 1) - 1, -2):
        ways = 2 if n % 2 == 0 and e == 0 else 1
        if (s - e) % 2 == 0: r += ways * comb(k, (s - e) // 2)
    return r
def main():
    c = vf.Check("C10", rule="a rowsum list, a candidate list or a sequence compared with the definition; distinct = distinct (type, length) and (length, sum)")
    r = vf.rng("c10")
    stored = [f"{t} {s}" for t, n, ids in common.grouped(per=30 if THOROUGH else 6, r=r) for s in ids]
    common.probe_run(c, "rowsum", [r.randrange(1 << 40), 24 if THOROUGH else 18, 20000 if THOROUGH else 3000, 12000000 if THOROUGH else 1400000], stored, "rowsums")
    if vf.probe("acc"): common.probe_run(c, "acc", ["sorted", r.randrange(1 << 40), 40000 if THOROUGH else 6000], [], "sorted sums")
    def listed(j):
        t, n = j
        T = vf.Tree(scripts=False); T.find(t, n).mkdir(parents=True)
        x = T.run("rust", "rowsums", t, n); txt = T.text(t, n, "rowsums.quad"); T.rm()
        import re
        got = None if txt is None else [tuple(int(v) for v in re.findall(r"-?\d+", l)) for l in txt.split("\n") if l.strip()]
        c.ok(1, f"list {t} {n}"); c.stat("rowsum_lists")
        if x.returncode != 0 or got is None: c.bad(f"rowsums {t} {n}: status {x.returncode}", x.stderr[-300:])
        elif got and all(len(g) == 4 for g in got) and sorted(got) != common.rowsums_of(t, n): c.bad(f"rowsums {t} {n}: {got} instead of {common.rowsums_of(t, n)}")
    vf.pmap(listed, [(t, n) for t in ("wts", "qts", "ws") for n in range(1, 32)])
    top = dict(wts=12, qts=11, ws=20) if THOROUGH else dict(wts=11, qts=9, ws=16)
    def files(j):
        t, n = j
        rr = vf.rng(f"c10/{j}"); o, p = rr.choice(OPTS), rr.choice(PAIRINGS)
        T = vf.Tree(scripts=False); T.find(t, n).mkdir(parents=True)
        x = T.run("rust", "pairs", t, n, o, p)
        ds = {d.name: d for d in T.find(t, n).glob("rowsum_*")}
        want = {"rowsum_" + "_".join(map(str, rs)): rs for rs in common.rowsums_of(t, n)}
        c.ok(1, f"dirs {t} {n}"); c.stat("generated")
        if x.returncode != 0 or set(ds) != set(want): c.bad(f"pairs {t} {n}: status {x.returncode}, directories {sorted(ds)} instead of {sorted(want)}", x.stderr[-300:])
        else:
            for name, d in ds.items():
                for b, tag in enumerate("WXYZ"):
                    f = d / f"seq_{tag}.seq"; s = want[name][b]
                    ls = f.read_text().split("\n")[:-1] if f.exists() else None
                    k = symcount(n, s) if t == "ws" else comb(n, s)
                    c.ok(1, f"{t} {n}:{s}"); c.stat("candidate_files")
                    if ls is None: c.bad(f"{t} n={n} {name}: seq_{tag}.seq missing"); continue
                    c.stat("candidates_in_files", len(ls))
                    ok = len(ls) == k and len(set(ls)) == k and all(len(l) == n and set(l) <= {"+", "-"} and l.count("+") - l.count("-") == s and (t != "ws" or l[1:] == l[:0:-1]) for l in ls)
                    if not ok: c.bad(f"{t} n={n} {name}: seq_{tag}.seq holds {len(ls)} lines, {len(set(ls))} distinct, instead of the {k} candidates of sum {s}")
        T.rm()
    vf.pmap(files, sorted([(t, n) for t in top for n in range(1, top[t] + 1)], key=lambda j: -j[1]))
    return c.finish()
