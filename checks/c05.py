"""C05: canonical forms and reductions, in process on stored sequences of every length, and through the join."""
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C05", rule="a reduction, canonical form or pairwise test on random equivalents judged by exact class ids, or a planted join; distinct = distinct lists and classes")
    r = vf.rng("c05")
    jobs = []
    for t, n, ids in common.grouped(per=12 if THOROUGH else 8, r=r):
        rounds = (40, 20, 8) if THOROUGH else (8, 4, 1)
        rounds = rounds[0 if n <= 9 else 1 if n <= 16 or n % 2 else 2]
        for k in range(4 if THOROUGH else 1): jobs.append((t, n, ids, rounds, r.randrange(1 << 40)))
    jobs.sort(key=lambda j: -j[1] * (j[1] % 2 == 0))
    def go(j):
        t, n, ids, rounds, s = j
        return common.probe_run(c, "equiv", ["canon", s, rounds, 20000 if THOROUGH else 6000, 20000 if THOROUGH else 4200], [f"{t} {x}" for x in ids], f"canon {t} n={n}")
    if vf.probe("equiv"): vf.pmap(go, jobs)
    # through the join: several different members of the same classes; one line per class, the same line every time
    rep = {}
    for i in range(6 if THOROUGH else 2):
        for run in common.needle_runs(f"c05/{i}", per_length=1, lengths=range(2, 32) if THOROUGH else [x for x in range(2, 32) if (x + i) % 2], copies=5, classes=4, ndecoys=0):
            if run.rc != 0 or run.seq is None: c.note(f"{run.name} did not complete: {run.out[-300:]}"); c.stat("not_completed"); continue
            c.stat("planted_joins"); got = {}
            for line, v in common.judge(run)["result.seq"]:
                c.ok(1, f"{run.t}:{line}")
                if v is None or not v[1] or v[3] not in run.want: c.bad(f"{run.name}: {line!r} is in no class of the candidates", run.block); continue
                if v[3] in got: c.bad(f"{run.name}: {line} and {got[v[3]]} are equivalent", run.block)
                got[v[3]] = line
                if rep.setdefault((run.t, v[3]), line) != line: c.bad(f"{run.name}: the class of {v[3]} is represented by {line} and elsewhere by {rep[run.t, v[3]]}", run.block)
            for w in run.want - set(got): c.bad(f"{run.name}: the class of {w} lost", run.block)
            c.stat("planted_genuine", run.genuine)
    return c.finish()
