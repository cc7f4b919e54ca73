"""C18: the parallel parts under many thread counts, CPU bindings and loads: Hadamard reduction, parallel search, concurrent
transforms and reductions."""
import os, collections
import vf, common
from vf import THOROUGH
def main():
    c = vf.Check("C18", rule="one parallel execution (or one value computed concurrently) compared with the reference; distinct = distinct (workload, thread count, processor binding)")
    r = vf.rng("c18"); cpus = sorted(os.sched_getaffinity(0))
    THREADS = [1, 2, 3, 4, 5, 7, 8, 16, 32]
    def bound(k):
        s = r.sample(cpus, min(k, len(cpus)))
        return lambda: os.sched_setaffinity(0, s)
    # Hadamard reduction: lists with many equivalent matrices
    lists = []
    for t, n in [("qts", 3), ("qts", 4), ("qts", 5), ("qts", 6), ("wts", 5), ("wts", 7), ("wts", 8), ("ws", 6), ("ws", 7), ("ws", 9), ("qts", 7), ("wts", 9)] + ([("qts", 8), ("wts", 10), ("ws", 11), ("ws", 13), ("qts", 9)] if THOROUGH else []):
        ids = [x for x in common.needles()[t][n]]
        if not ids: continue
        ids = r.sample(ids, min(len(ids), 10)); k = max(2, 24 // len(ids))
        seqs = vf.orc(["randeq", "ws" if t == "ws" else "qts", k, r.randrange(1 << 40)], ids)
        # (the list holds sequences in the normal form under negation and swapping: take them from an in-process run if it is there)
        lists.append((t, n, sorted(set(seqs) | set(ids))))
    def ref(x):
        t, n, seqs = x
        res = [l.split() for l in vf.orc(["hm"], ["seq " + s for s in seqs])]
        cls = [int(f[4]) for f in res]
        return None if min(cls) < 0 else (len(set(cls)), dict(zip(seqs, cls)))
    refs = vf.pmap(ref, lists); jobs = []
    for (t, n, seqs), rf in zip(lists, refs):
        if rf is None: c.stat("lists_not_decided"); continue
        for th in (THREADS if THOROUGH else r.sample(THREADS, 4)):
            jobs.append((t, n, seqs, rf, th, r.choice([1, 2, 8]), vf.rng(r.random())))
    def reduce(j):
        t, n, seqs, (k, cls), th, nb, rr = j; T = vf.Tree(scripts=False); l = list(seqs); rr.shuffle(l)
        common.put_result(T, t, n, l, "result-qts.seq" if t == "wts" else "result.seq")
        x = T.run("rust", "convert", "hm", t, n, env=T.env(RAYON_NUM_THREADS=th), preexec=bound(nb)); mats = T.lines(t, n, "result.mat"); T.rm()
        name = f"{t} n={n}: {len(l)} sequences reduced with {th} threads on {nb} processors"
        c.ok(1, f"reduce {t}{n} {th} {nb}"); c.stat("hadamard_reductions"); c.stat(f"threads_{th}")
        if x.returncode != 0 or mats is None: c.bad(f"{name}: status {x.returncode}", x.stderr[-400:]); return
        if len(mats) != k: c.bad(f"{name}: {len(mats)} matrices instead of {k}", "\n".join(l)); return
        res = [f.split() for f in vf.orc(["hm"], ["seq " + s for s in seqs] + mats)]
        rep = {}
        for s, f in zip(seqs, res): rep[int(f[4])] = s
        got = [int(f[4]) if f[0] != "bad" else -9 for f in res[len(seqs):]]
        if min(got + [0]) < 0:
            if -9 in got: c.bad(f"{name}: an unreadable matrix", "\n".join(mats))
            return
        if len(set(got)) != k or not set(got) <= set(rep): c.bad(f"{name}: the matrices do not represent the {k} classes once each", "\n".join(mats))
        c.stat("classes_seen", k)
        if th > 8: c.sample(f"{name}: {k} matrices")
    vf.pmap(reduce, jobs, 4)
    # parallel search against the sequential one and the reference
    pb = vf.probe("find")
    if pb:
        fj = []
        for which, cases in (("optim", [(1, "none"), (2, "none"), (3, "none"), (4, "none"), (5, "none"), (6, "none"), (5, "I"), (7, "I"), (8, "I"), (9, "I"), (8, "II"), (8, "III"), (6, "III"), (4, "II")] + ([(7, "none"), (11, "I"), (10, "II"), (10, "III")] if THOROUGH else [])),
                             ("q24", [(2, "none"), (3, "none"), (4, "none"), (5, "none"), (7, "I"), (8, "II"), (8, "III")] + ([(6, "none"), (9, "I")] if THOROUGH else []))):
            for n, s in cases:
                want = collections.Counter(vf.orc(["perfect", 16 if which == "optim" else 24, n, s]))
                for th in (THREADS if THOROUGH else r.sample(THREADS, 4)): fj.append((which, n, s, want, th, r.choice([1, 3, 8])))
        def search(j):
            which, n, s, want, th, nb = j; T = vf.Tree(scripts=False)
            x = T.run(str(pb), "verif:find", which, n, s, env=T.env(RAYON_NUM_THREADS=th), preexec=bound(nb)); T.rm()
            lines = x.stdout.split("\n"); got = collections.Counter(l for l in lines if len(l) == n and l not in ("DONE",) and not l.startswith(("COUNT", "STAT", "KEY"))) if n != 4 else collections.Counter(l for l in lines if len(l) == 4 and l != "DONE")
            cnt = [int(l[6:]) for l in lines if l.startswith("COUNT ")]
            name = f"parallel search {which} n={n} {s} with {th} threads on {nb} processors"; c.ok(1, f"find {which}{n}{s} {th} {nb}"); c.stat("parallel_searches"); c.stat("sequences_found", sum(want.values()))
            if x.returncode or not cnt: c.bad(f"{name}: status {x.returncode}", x.stderr[-400:]); return
            if got != want: c.bad(f"{name}: prints {sum(got.values())} sequences instead of {sum(want.values())}", f"missing {list((want - got).items())[:10]}\nextra {list((got - want).items())[:10]}")
            if cnt[0] != sum(want.values()): c.bad(f"{name}: reports {cnt[0]} instead of {sum(want.values())}")
        vf.pmap(search, fj, 4)
    # concurrent transforms and reductions
    if vf.probe("par"):
        pj = []
        for n in range(1, 32):
            for _ in range(6 if THOROUGH else 1):
                th = r.choice([2, 3, 4, 8, 16, 32]); pj.append((["par", "dft", n, th, 150, r.randrange(1 << 40)], None, f"transforms of length {n} on {th} threads"))
                for _ in range(3): th = r.choice([2, 4, 8, 16]); pj.append((["par", "first", n, th, r.randrange(1 << 40)], None, f"first transforms of length {n} on {th} threads"))
        for _ in range(20 if THOROUGH else 5):
            th = r.choice([2, 4, 8, 16]); pj.append((["par", "red", th, r.randrange(1 << 40)], [f"{t} {s}" for t, n, ids in common.grouped(per=2, r=r, lengths=r.sample(range(2, 12), 3)) for s in ids], f"reductions on {th} threads"))
        vf.pmap(lambda j: common.probe_run(c, "par", j[0][1:], j[1], j[2]), pj, 4)
    return c.finish()
