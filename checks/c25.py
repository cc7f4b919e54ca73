"""C25: the equation systems against every completion of small lengths, and against genuine and nearly genuine ones of all."""
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C25", rule="an assignment tried in a generated system and compared with the definition; distinct = distinct pairs of given components")
    r = vf.rng("c25"); pb = vf.probe("eqn")
    if not pb: c.note("the in-process monitor does not compile against this tree"); return c.finish()
    stored = [(t, s) for t, n, ids in common.grouped(types=("qts", "wts", "ws"), lengths=range(2, 32), per=12 if THOROUGH else 4, r=r) for s in ids]
    parts = [[] for _ in range(8)]
    for i, (t, s) in enumerate(sorted(stored, key=lambda x: len(x[1]))): parts[i % 8].append(f"{t} {s}")
    vf.pmap(lambda j: common.probe_run(c, "eqn", ["gen", j[0], 60 if THOROUGH else 12, 6 if THOROUGH else 5], j[1], "systems"), [(r.randrange(1 << 40), p) for p in parts])
    def search(n):
        T = vf.Tree(scripts=False)
        x = T.run(pb, "verif:eqn", "search", n)
        d = T.dir / "results" / "equations" / "qts" / f"find_{n}"
        if x.returncode or not d.is_dir(): c.bad(f"equation search n={n}: status {x.returncode}", x.stderr[-600:]); T.rm(); return
        y = T.run(pb, "verif:eqn", "files", d, n); c.probe_out(y, f"files n={n}")
        # every couple of candidates has its file
        got = sorted(l for l in y.stdout.split("\n") if l.startswith("FILE ")); 
        if len(got) != len(set(got)): c.bad(f"n={n}: two files for one couple", "\n".join(got))
        sums = {}
        for l in got:
            f = l.split(" ", 5); sums.setdefault(f[5], set()).add((f[1], f[3])); sums.setdefault((f[5], "n"), set()).add((f[2], f[4]))
        for q in common.rowsums_of("qts", n):
            k = str(list(q)); tags = sums.get(k, set()); c.ok(1, f"files {n} {k}"); c.stat("decompositions")
            if len(tags) != 1: c.bad(f"n={n} sums {k}: files for the components {sorted(tags)}"); continue
            a, b = [int(x) for x in next(iter(tags))]
            want = {(s, t) for s in signs(n, q[a]) for t in signs(n, q[b])}
            if sums[k, "n"] != want: c.bad(f"n={n} sums {k}: files for {len(sums[k, 'n'])} of {len(want)} couples")
        T.rm()
    vf.pmap(search, range(2, 7 if THOROUGH else 6))
    return c.finish()
def signs(n, s):
    import itertools
    p = (n + s) // 2
    return ["".join("+" if i in x else "-" for i in range(n)) for x in map(set, itertools.combinations(range(n), p))]
