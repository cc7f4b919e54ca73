"""C02: the classes reported are exactly the classes the oracle enumerates (or knows to be planted)."""
import vf, common
def observe(c, run, want):
    if run.rc != 0 or run.seq is None:
        c.bad(f"{run.name}: the search did not complete (status {run.rc})", run.out); return
    got = set(v[3] for _, v in common.judge(run)["result.seq"] if v and v[1])
    c.stat("searches" if not run.planted else "planted_searches")
    for w in sorted(want):
        c.ok(1, f"{run.t}:{w}"); c.stat("classes_expected")
        if w not in got: c.bad(f"{run.name}: no representative of the class of {w}", f"expected {sorted(want)}\ngot {sorted(got)}\nblock {getattr(run, 'block', None)}")
    if run.n > 3: c.sample(f"{run.name}: {len(want)} classes expected, {len(got)} reported")
def main():
    c = vf.Check("C02", rule="an expected equivalence class looked up in the result list of a search; distinct = (type, class)")
    for run in common.matrix(): observe(c, run, common.expected(run.t, run.n))
    for run in common.needle_runs("c02"): observe(c, run, run.want)
    r = vf.rng("c02l")
    for kw in (dict(big=70000), dict(classes=2, copies=1, ndecoys=4, shifts=1), dict(crowd=7), dict(crowd=25)):
        ls = sorted(r.sample(range(20, 32), 8 if common.THOROUGH else 3)) if "big" in kw else r.sample(range(12, 32), 12 if common.THOROUGH else 6) if "crowd" not in kw else r.sample(range(12, 28), 12 if common.THOROUGH else 3)
        for run in common.needle_runs(f"c02/{kw}", types=("wts", "qts"), lengths=ls, **kw):
            run.block = kw; c.stat("large_planted_searches"); observe(c, run, run.want)
    return c.finish()
