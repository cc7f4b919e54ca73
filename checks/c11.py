"""C11: Hadamard lists: structure, pairwise inequivalence and coverage, judged by the oracle's own equivalence test."""
import vf, common
from vf import THOROUGH, OPTS, PAIRINGS
def judge(c, name, n, seqs, mats, status):
    if status != 0 or mats is None: c.bad(f"{name}: the conversion did not complete (status {status})"); return
    try: res = [l.split() for l in vf.orc(["hm"], list(mats) + ["seq " + s for s in seqs], timeout=120)]
    except vf.subprocess.TimeoutExpired: c.stat("lists_not_decided"); c.note(f"{name}: not decided in time"); return
    cls = set()
    for m, f in zip(mats, res):
        c.ok(1); c.stat("matrices")
        if f[0] == "bad": c.bad(f"{name}: unreadable matrix {m[:120]}", m); continue
        if int(f[0]) != 4 * n: c.bad(f"{name}: matrix of order {f[0]}", m); continue
        if f[1] != "1": c.bad(f"{name}: a matrix whose rows are not orthogonal", m); continue
        if f[2] == "-": c.bad(f"{name}: a matrix without the quaternion-type structure with circulant blocks", m)
        k = int(f[4])
        if k < 0: c.stat("undecided"); continue
        if k in cls: c.bad(f"{name}: two equivalent matrices", m)
        cls.add(k)
    for s, f in zip(seqs, res[len(mats):]):
        c.ok(1, f"{name.split()[0]} {s}"); c.stat("sequences")
        k = int(f[4])
        if k < 0: c.stat("undecided")
        elif k not in cls: c.bad(f"{name}: no written matrix is equivalent to that of {s}", f"{len(mats)} matrices")
    if len(mats) < len(seqs): c.stat("lists_with_equivalent_matrices")
    if len(mats) > 1: c.stat("lists_with_several_matrices")
    if n > 3: c.sample(f"{name}: {len(seqs)} sequences, {len(mats)} matrices")
def main():
    c = vf.Check("C11", rule="a written matrix or a listed sequence judged by the reference equivalence test, or a matrix routine compared with its definition; distinct = distinct sequences")
    r = vf.rng("c11")
    groups = common.grouped(per=8 if THOROUGH else 4, r=r)
    if not THOROUGH: groups = [g for g in groups if g[1] <= 14] + r.sample([g for g in groups if g[1] > 14], 8)
    groups.sort(key=lambda g: -g[1])
    if vf.probe("hm"):
        parts = [groups[i::8] for i in range(8)]
        ss = [r.randrange(1 << 40) for _ in parts]
        vf.pmap(lambda j: common.probe_run(c, "hm", [j[0], 6 if THOROUGH else 2], [f"{t} {s}" for t, n, ids in j[1] for s in ids], "matrices", timeout=3000), list(zip(ss, parts)))
    if vf.probe("acc"): common.probe_run(c, "acc", ["mats", r.randrange(1 << 40), 20000 if THOROUGH else 3000], [], "matrix routines")
    # real searches with the conversion
    top = dict(ws=(15, []), qts=(11, []), wts=(12, [(13, 1)])) if THOROUGH else dict(ws=(11, [(13, 1)]), qts=(7, [(8, 2), (10, 1)]), wts=(8, [(9, 1), (10, 1), (11, 1), (12, 1)]))
    jobs = [j for j in common.matrix_jobs(top, top) if j[1] > 6 or hash_pick(j)]
    def go(j):
        t, n, o, p = j; T = vf.Tree(); way = vf.rng(f"c11/{j}").choice(["-h", "script", "command"])
        x = T.run("./driver.sh", t, n, *common.flags(o, p), *(["-h"] if way == "-h" else []))
        if x.returncode == 0 and way != "-h": x = T.run("./convert_hm.sh", t, n) if way == "script" else T.run("rust", "convert", "hm", t, n)
        seqs, mats = T.lines(t, n, "result-qts.seq" if t == "wts" else "result.seq"), T.lines(t, n, "result.mat"); T.rm()
        return f"{t} n={n} {o} {p} {way}", n, seqs, mats, x.returncode
    for name, n, seqs, mats, rc in vf.pmap(go, jobs):
        c.stat("searches"); judge(c, name, n, seqs or [], mats, rc)
    # planted searches of all lengths
    pb = vf.probe("match")
    if pb:
        nd = common.needles()
        js = [(t, n, i) for t in ("wts", "qts", "ws") for n in range(9, 32) if nd[t][n] for i in range(4 if THOROUGH else 1)]
        if not THOROUGH: js = [j for j in js if j[1] <= 20] + vf.rng('c11').sample([j for j in js if j[1] > 20], 6)
        js.sort(key=lambda j: -j[1])
        def planted(j):
            t, n, i = j; rr = vf.rng(f"c11n/{j}"); o, p = rr.choice(OPTS), rr.choice(PAIRINGS)
            T, x = common.needle_tree(t, n, o, p, common.needle_block(t, n, rr, classes=8 if n < 16 else 4 if n < 20 else 2, copies=1, ndecoys=0), pb)
            for cmd in (["./sortpairs.sh", t, n], ["rust", "join", t, n]):
                if x.returncode == 0: x = T.run(*cmd)
            seqs = T.lines(t, n, "result-qts.seq" if t == "wts" else "result.seq")
            if x.returncode != 0 or not seqs: T.rm(); return f"planted {t} n={n}", n, None, None, x.returncode
            x = T.run("rust", "convert", "hm", t, n); mats = T.lines(t, n, "result.mat"); T.rm()
            judge(c, f"planted {t} n={n} {o} {p}", n, seqs, mats, x.returncode)
            c.stat("planted_searches")
            return f"planted {t} n={n}", n, seqs, mats, 0
        for name, n, seqs, mats, rc in vf.pmap(planted, js):
            if seqs is None: c.note(f"{name} did not complete ({rc})"); c.stat("not_completed")
    return c.finish()
def hash_pick(j): return vf.rng(f"c11pick/{j}").random() < .4
