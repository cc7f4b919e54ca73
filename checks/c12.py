"""C12: quaternionic Hadamard matrices recomputed from the sequences, for lists and for whole classes."""
import vf, common, re, collections
from vf import THOROUGH, OPTS, PAIRINGS
def parse(text):
    """matrices as "row/row/..." strings"""
    out, cur = [], []
    for l in (text or "").split("\n"):
        if l.strip().startswith("|"): cur.append(l.replace("|", "").replace(" ", ""))
        elif cur: out.append("/".join(cur)); cur = []
    if cur: out.append("/".join(cur))
    return out
def converted(c, name, seqs, text, out, status):
    if status != 0 or text is None: c.bad(f"{name}: the conversion did not complete (status {status})", out[-400:]); return
    ref = [l.split() for l in vf.orc(["qhm"], seqs)] if seqs else []
    got = parse(text)
    c.stat("lists")
    for s in seqs: c.ok(1, s); c.stat("matrices")
    if len(got) != len(seqs): c.bad(f"{name}: {len(got)} matrices for {len(seqs)} sequences"); return
    for s, f, g in zip(seqs, ref, got):
        if f[0] != g: c.bad(f"{name}: the matrix of {s} is {g} instead of {f[0]}"); return
        if f[1] != "1": c.bad(f"{name}: the matrix of {s} has rows that are not orthogonal"); return
    nc = sum(f[2] == "1" for f in ref)
    m = re.search(r"converted (\d+) sequences.*?\. (\d+) contained", out, re.S)
    if m:
        c.stat("reported_counts"); c.stat("non_commuting", nc); c.stat("commuting", len(seqs) - nc)
        if (int(m[1]), int(m[2])) != (len(seqs), nc): c.bad(f"{name}: reports {m[2]} of {m[1]} matrices with non-commuting entries, there are {nc} of {len(seqs)}", " ".join(seqs))
    if seqs and len(seqs[0]) > 3: c.sample(f"{name}: {len(seqs)} matrices, {nc} non-commuting")
def main():
    c = vf.Check("C12", rule="a written matrix compared with the one recomputed from its sequence; distinct = distinct sequences")
    r = vf.rng("c12")
    stored = [f"{t} {s}" for t, n, ids in common.grouped(per=20 if THOROUGH else 5, r=r) for s in ids]
    if vf.probe("qhm"): common.probe_run(c, "qhm", [r.randrange(1 << 40), 20 if THOROUGH else 4], stored, "qhm")
    if vf.probe("acc"): common.probe_run(c, "acc", ["mats", r.randrange(1 << 40), 20000 if THOROUGH else 3000], [], "matrix routines")
    # real searches: the driver converts at its end
    top = dict(ws=(14, []), qts=(10, []), wts=(11, [])) if THOROUGH else dict(ws=(10, [(12, 1), (14, 1)]), qts=(7, [(8, 1), (9, 1)]), wts=(8, [(9, 1), (10, 1), (11, 1)]))
    def keep(T, run): run.qhm = T.text(run.t, run.n, "result.qhm")
    for run in common.matrix(top, top, keep=keep):
        c.stat("searches"); converted(c, run.name, run.seq or [], run.qhm, run.out, run.rc)
    # lists of any length
    def lists(j):
        t, n, i = j; rr = vf.rng(f"c12/{j}"); ids = common.needles()[t][n]
        k = rr.choice([1, 2, 3, 5, 12]); ls = [rr.choice(ids) for _ in range(k)]
        if rr.random() < .8: ls = vf.orc(["randeq", t, 1, rr.randrange(1 << 40)], ls)
        T = vf.Tree(); common.put_result(T, t, n, ls)
        x = T.run(*(["./convert_qhm.sh", t, n] if rr.random() < .5 else ["rust", "convert", "qhm", t, n]))
        text = T.text(t, n, "result.qhm"); T.rm()
        converted(c, f"list {t} n={n} {' '.join(ls)}"[:300], ls, text, x.stdout + x.stderr, x.returncode)
    nd = common.needles()
    vf.pmap(lists, [(t, n, i) for t in nd for n in range(1, 32) if nd[t][n] for i in range(10 if THOROUGH else 2)])
    # whole classes
    def whole(j):
        t, n = j; rr = vf.rng(f"c12w/{j}"); ids = list(nd[t][n]); ids = rr.sample(ids, min(3 if n < 6 else 1, len(ids)))
        T = vf.Tree(scripts=False); common.put_result(T, t, n, vf.orc(["randeq", t, 1, rr.randrange(1 << 40)], ids))
        x = T.run("rust", "qhm-all", t, n); text = T.text(t, n, "qhm_all.mat"); T.rm()
        orb = [l for l in vf.orc(["orbit", t], ids) if l]
        ref = [l.split() for l in vf.orc(["qhm"], orb)]
        c.ok(len(orb), f"whole {t} {' '.join(ids)}"); c.stat("whole_classes", len(ids)); c.stat("whole_class_matrices", len(orb))
        if x.returncode != 0 or text is None: c.bad(f"qhm-all {t} {n}: status {x.returncode}", x.stderr[-400:]); return
        got, want = collections.Counter(parse(text)), collections.Counter(f[0] for f in ref)
        if got != want: c.bad(f"qhm-all {t} {n} on the classes of {' '.join(ids)}: {sum(got.values())} matrices, {sum((got - want).values())} foreign or too often, {sum((want - got).values())} missing of {len(orb)}")
        if any(f[1] != "1" for f in ref): c.bad(f"qhm-all {t} {n}: rows not orthogonal")
    top = dict(qts=10, wts=9, ws=11) if THOROUGH else dict(qts=8, wts=6, ws=8)
    vf.pmap(whole, [(t, n) for t in top for n in range(1, top[t] + 1) if nd[t][n]])
    return c.finish()
