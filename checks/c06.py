"""C06: equivalence operations and class generation, against the definitions."""
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C06", rule="an operation or generated class compared with its definition on a stored sequence or a random equivalent; distinct = distinct sequences")
    r = vf.rng("c06")
    jobs = []
    for t, n, ids in common.grouped(per=10 if THOROUGH else 3, r=r):
        ln = [f"{t} {x}" for x in ids]
        jobs.append((t, n, ln, ["ops", r.randrange(1 << 40), 20 if THOROUGH else 6]))
        for k in range(3 if THOROUGH else 1): jobs.append((t, n, ln if THOROUGH else ln[:2 if n > 16 else 3], ["class", r.randrange(1 << 40), 60000 if THOROUGH else 9000, 60000 if THOROUGH else 9000]))
    jobs.sort(key=lambda j: -j[1] * (j[3][0] == "class"))
    if vf.probe("equiv"): vf.pmap(lambda j: common.probe_run(c, "equiv", j[3], j[2], f"{j[3][0]} {j[0]} n={j[1]}"), jobs)
    if vf.probe("acc"): vf.pmap(lambda s: common.probe_run(c, "acc", ["sym", s, 20000 if THOROUGH else 3000], [], "operations on any quadruple"), [r.randrange(1 << 40) for _ in range(8 if THOROUGH else 2)])
    # the command that writes whole classes: as many matrices as the orbit has members
    js = [(t, n) for t, top in (("qts", 8), ("wts", 6), ("ws", 8)) for n in range(1, top + 1 + 2 * THOROUGH) if common.needles()[t][n]]
    def whole(j):
        t, n = j; ids = list(common.needles()[t][n]); rr = vf.rng(f"c06/{j}")
        ids = rr.sample(ids, min(2, len(ids)))
        orb = vf.orc(["orbit", t], ids)
        T = vf.Tree(scripts=False)
        common.put_result(T, t, n, vf.orc(["randeq", t, 1, rr.randrange(1 << 40)], ids))
        x = T.run("rust", "qhm-all", t, n)
        text = T.text(t, n, "qhm_all.mat"); T.rm()
        want = sum(1 for l in orb if l)
        got = None if text is None else sum(1 for b in text.split("\n\n") if b.strip())
        c.ok(1, f"whole {t} {n}"); c.stat("whole_classes", len(ids)); c.stat("whole_class_members", want)
        if x.returncode != 0 or got != want: c.bad(f"qhm-all {t} {n} on {' '.join(ids)}: {got} matrices for {want} members (status {x.returncode})", x.stderr[-500:])
    vf.pmap(whole, js)
    return c.finish()
