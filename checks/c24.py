"""C24: correlations, transforms, filters and the in-memory matching, in process, one length per process; and the keys
and admitted couples that the program itself writes with these routines."""
import vf, common, c09
from vf import THOROUGH
def main():
    c = vf.Check("C24", rule="one value of one routine compared with the integer (or exact spectral) definition; distinct = distinct pairs and sequences")
    r = vf.rng("c24"); per = 30 if THOROUGH else 6
    stored = common.grouped(per=per, r=r); jobs = []
    for n in range(1, 32):
        ls = [f"{t} {s}" for t, m, ids in stored if m == n for s in ids]
        for _ in range(6 if THOROUGH else 2): jobs.append((n, r.randrange(1 << 40), ls))
    jobs.sort(key=lambda j: -j[0])
    if vf.probe("corr"): vf.pmap(lambda j: common.probe_run(c, "corr", [j[0], j[1], 120 if THOROUGH else 30], j[2], f"n={j[0]}"), jobs)
    def files(j):
        t, n = j
        for o in vf.OPTS:
            T = vf.Tree(scripts=False); T.find(t, n).mkdir(parents=True); p = vf.rng(f"c24/{j}/{o}").choice(vf.PAIRINGS)
            x = T.run("rust", "pairs", t, n, o, p)
            if x.returncode: c.bad(f"pairs {t} {n} {o} {p}: status {x.returncode}", x.stderr[-600:])
            else: c09.inspect(c, T, t, n, o, p, True, "generated")
            T.rm()
    vf.pmap(files, [("qts", n) for n in range(2, 9)] + [("wts", n) for n in range(2, 10)] + [("ws", n) for n in range(2, 14)])
    return c.finish()
