"""C01: every line of every result list is judged by the exact oracle."""
import vf, common
def observe(c, run):
    if run.rc != 0 or run.seq is None:
        c.note(f"{run.name}: did not complete (status {run.rc}): {run.out[-300:]}"); c.stat("searches_not_completed"); return
    c.stat("searches" if not run.planted else "planted_searches")
    for name, rows in common.judge(run).items():
        for line, v in rows:
            c.ok(1, f"{name}:{line}"); c.stat(f"lines_{name}")
            ctx = f"{run.name}: {name} holds {line!r}"
            if v is None: c.bad(f"{ctx}, no sequence over the alphabet")
            elif v[0] != run.n: c.bad(f"{ctx} of length {v[0]}")
            elif not v[1]: c.bad(f"{ctx}, not a valid sequence of its type")
            elif not v[2]: c.bad(f"{ctx}, not perfect")
        # the same quadruples in the companion file
        text = run.qseq if name == "result.seq" else run.qqseq
        quads = vf.parse_qseq(text or "")
        t = run.t if name == "result.seq" else "qts"
        ch = vf.quads_to_chars([q if q else ["?"] * 4 for q in quads])
        for q, s, v in zip(quads, ch, vf.classify(t, [x if x != "bad" else "?" for x in ch])):
            c.ok(1); c.stat("quadruples")
            if v is None or v[0] != run.n or not v[1] or not v[2]: c.bad(f"{run.name}: {name.replace('.seq', '.qseq')} holds {q}, no valid quadruple")
    if run.planted: c.stat("genuine_planted", run.genuine)
    if run.n > 3: c.sample(f"{run.name}: {len(run.seq)} sequences, first {run.seq[:1]}")
def main():
    c = vf.Check("C01", rule="a result line or quadruple judged against the integer definitions; distinct = distinct lines")
    for run in common.matrix(): observe(c, run)
    for run in common.needle_runs("c01"): observe(c, run)
    return c.finish()
