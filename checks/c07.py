"""C07: letters, quadruples and text; in process, and .seq against .qseq in real result files."""
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C07", rule="a string or quadruple translated and compared with the table, or an entry of a .qseq file with its .seq line; distinct = distinct strings")
    r = vf.rng("c07")
    stored = [(t, s) for t, n, ids in common.grouped(per=40 if THOROUGH else 6, r=r) for s in ids]
    lines = [f"{t} {s}" for t, s in stored + common.spread(stored, r, 4 if THOROUGH else 2)]
    for k in range(8 if THOROUGH else 2): common.probe_run(c, "enc", [r.randrange(1 << 40), 60000 if THOROUGH else 8000], lines if k == 0 else [], "encoding")
    if vf.probe("acc"): vf.pmap(lambda s: common.probe_run(c, "acc", ["quad", s, 20000 if THOROUGH else 4000], [], "histories of assignments"), [r.randrange(1 << 40) for _ in range(4 if THOROUGH else 1)])
    # companion files of real searches
    quick = dict(ws=(12, [(14, 1), (16, 1)]), qts=(8, [(9, 1)]), wts=(9, [(10, 1), (11, 1)]))
    def observe(run):
        if run.rc != 0 or run.seq is None: c.note(f"{run.name} did not complete: {run.out[-300:]}"); c.stat("not_completed"); return
        c.stat("searches" if not run.planted else "planted_searches")
        for name, lines, text in (("result", run.seq, run.qseq), ("result-qts", run.qts, run.qqseq)):
            if lines is None: continue
            quads = vf.parse_qseq(text or "")
            ch = vf.quads_to_chars([q if q else ["?"] * 4 for q in quads])
            c.ok(len(lines), f"{run.t} {run.n} {name}"); c.stat("entries", len(lines))
            for l in lines: c.ok(0, l)
            if ch != lines: c.bad(f"{run.name}: {name}.seq and {name}.qseq differ", f"{lines}\n{ch}\n{text}")
        if run.n > 5: c.sample(f"{run.name}: {len(run.seq)} entries agree")
    for run in common.matrix(quick, common.QUICK): observe(run)
    for run in common.needle_runs("c07", lengths=range(10, 32), classes=3): observe(run)
    # foreign letters in a list that is to be converted
    def foreign(i):
        rr = vf.rng(f"c07/{i}"); t = rr.choice(["qts", "ws", "wts"]); n = rr.choice([3, 5, 6, 8, 9])
        ids = list(common.needles()[t][n]); s = list(rr.choice(ids)); k = rr.randrange(n + 1); f = rr.choice("aPS10 *?.sé~u")
        bad = "".join(s[:k]) + f + "".join(s[k:] if rr.random() < .5 else s[k + 1:])
        T = vf.Tree(scripts=False); cmd = rr.choice([["convert", "hm", t, n], ["qhm-all", t, n]] + ([["amicable", n]] if t == "qts" else []))
        # the eight other unit quaternions have letters of their own, which no quadruple corresponds to
        for name in ("result.seq", "result-qts.seq"): common.put_result(T, t, n, [ids[0], bad, ids[-1]], name)
        x = T.run("rust", *cmd); T.rm()
        c.ok(1, f"foreign {bad}"); c.stat("foreign_letters")
        if x.returncode == 0: c.bad(f"{' '.join(map(str, cmd))} accepts the line {bad!r}", x.stdout[-300:])
    vf.pmap(foreign, range(200 if THOROUGH else 60))
    return c.finish()
