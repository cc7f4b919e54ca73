"""C09: pair files against sequence files, exact quantities, and every genuine combination of the candidates."""
import vf, common
from vf import THOROUGH, OPTS, PAIRINGS
def inspect(c, T, t, n, o, p, solve, name):
    find = T.find(t, n)
    for d in sorted(find.glob("rowsum_*")):
        r = T.run(str(vf.oracle()), "pairdir", t, o, n, str(d), int(solve), timeout=900)
        c.stat("directories")
        k = len(c.viol)
        c.probe_out(r, f"{t} n={n} {o} {p}")
        if len(c.viol) > k: c.viol[k:] = [(s, f"{name}\n{dt}") for s, dt in c.viol[k:]]
def main():
    c = vf.Check("C09", rule="a line of a pair file, a sequence, or a genuine combination found in both pair files; distinct = distinct directories (length and rowsums)")
    top = dict(wts=(11, 14), qts=(9, 11), ws=(18, 24)) if THOROUGH else dict(wts=(10, 12), qts=(8, 10), ws=(14, 17))
    jobs = []
    for t, (full, more) in top.items():
        for n in range(1, more + 1):
            cfg = [(o, p) for o in OPTS for p in PAIRINGS]
            if n > full: cfg = vf.rng(f"c09/{t}/{n}").sample(cfg, 1)
            jobs += [(t, n, o, p) for o, p in cfg]
    jobs.sort(key=lambda j: -(2 ** j[1]) * dict(wts=6, qts=8, ws=0.1)[j[0]])
    def go(j):
        t, n, o, p = j
        T = vf.Tree(scripts=False); T.find(t, n).mkdir(parents=True)
        r = vf.rng(f"c09/{j}")
        if r.random() < .5: cmds = [["pairs", t, n, o, p]]
        else: cmds = [["pair_single", t, n, *rs, o, p, k] for rs in common.rowsums_of(t, n) for k in (1, 2)]
        for cmd in cmds:
            x = T.run("rust", *cmd)
            if x.returncode != 0: c.bad(f"{' '.join(map(str, cmd))}: status {x.returncode}", x.stderr[-600:]); break
        else:
            # solving every combination of candidates independently
            inspect(c, T, t, n, o, p, True, "generated")
            if n > 6: c.sample(f"generated {t} n={n} {o} {p}: {len(list(T.find(t, n).glob('rowsum_*')))} directories")
        c.stat("generated_searches"); T.rm()
    vf.pmap(go, jobs)
    pb = vf.probe("match")
    if pb:
        js = [(t, n, i) for t in ("wts", "qts", "ws") for n in range(2, 32) if common.needles()[t][n] for i in range(8 if THOROUGH else 2)]
        def planted(j):
            t, n, i = j
            r = vf.rng(f"c09n/{j}"); block = common.needle_block(t, n, r, classes=6, copies=3, ndecoys=10)
            for o, p in [(o, p) for o in OPTS for p in PAIRINGS]:
                T, x = common.needle_tree(t, n, o, p, block, pb)
                if x.returncode != 0 or "DONE" not in x.stdout: c.bad(f"pair generation for planted {t} n={n} {o} {p}: status {x.returncode}", x.stderr[-600:])
                else: inspect(c, T, t, n, o, p, True, str(block))
                c.stat("planted_searches"); T.rm()
        vf.pmap(planted, js)
        # more candidates than 16 bits can number, and keys that many pairs share
        def large(j):
            t, n, i, o, p, kw = j; r = vf.rng(f"c09l/{j}")
            block = common.needle_block(t, n, r, **kw)
            T, x = common.needle_tree(t, n, o, p, block, pb)
            if x.returncode != 0 or "DONE" not in x.stdout: c.bad(f"pair generation for large planted {t} n={n} {o} {p}: status {x.returncode}", x.stderr[-600:])
            else: inspect(c, T, t, n, o, p, True, f"large planted {t} n={n} {o} {p} {kw} seed {vf.SEED}/c09l/{j}")
            c.stat("large_planted_searches"); c.stat("candidates_of_large_searches", sum(len(l) for _, ls in block for l in ls)); T.rm()
        rr = vf.rng("c09l"); js = []
        for t in ("wts", "qts"):
            for i in range(12 if THOROUGH else 4): js.append((t, rr.randrange(20, 32), i, OPTS[i % 2], rr.choice(PAIRINGS), dict(big=70000)))
            for i in range(20 if THOROUGH else 6): js.append((t, rr.randrange(12, 32), i, OPTS[i % 2], rr.choice(PAIRINGS), dict(classes=2, copies=1, ndecoys=4, shifts=1)))
        js = [(j[0], max(k for k in range(2, j[1] + 1) if common.needles()[j[0]][k]), *j[2:]) for j in js]
        vf.pmap(large, js)
    return c.finish()
