"""C04: one type and length, many ways to run the search; all must write the same set of sequences."""
import vf, common, threading
from vf import OPTS, PAIRINGS, THOROUGH
def slurm(T, r):
    """(flags, environment): the cluster variant half of the time"""
    d = T.dir / "node"; d.mkdir(exist_ok=True)
    return (["-s"], T.env(SLURM_TMPDIR=d)) if r.random() < .4 else ([], T.env())
# no language is installed here: sorts like one that passes over punctuation unless the C order is asked for
SORT = '''#!/bin/bash
l="${LC_ALL:-${LC_COLLATE:-${LANG:-C}}}"
case "$l" in C|POSIX|C.*) exec /usr/bin/sort "$@";; esac
exec python3 - "$@" <<'PY'
import os, re, sys
a = sys.argv[1:]; fs = []; i = 0
while i < len(a):
    if a[i] in ("-S", "-T"): i += 2; continue
    if a[i].startswith(("--parallel", "--buffer-size", "--temporary-directory", "-S", "-T")): i += 1; continue
    if a[i].startswith("-"): os.execv("/usr/bin/sort", ["sort"] + a)
    fs.append(a[i]); i += 1
ls = []
for f in fs or ["/dev/stdin"]: ls += open(f).read().split("\\n")[:-1]
ls.sort(key=lambda l: (re.sub("[^0-9A-Za-z]", "", l), l))
sys.stdout.write("".join(l + "\\n" for l in ls))
PY
'''
def surroundings(T, r):
    """things of the environment that the search must not depend on"""
    e = T.extra
    if r.random() < .5: e["RAYON_NUM_THREADS"] = r.choice([1, 2, 3, 5, 16])
    if r.random() < .5:
        e.update(r.choice([dict(LANG="en_US.UTF-8"), dict(LC_ALL="en_US.UTF-8"), dict(LC_COLLATE="de_DE.UTF-8"), dict(LANG="C", LC_COLLATE="en_US.UTF-8"), dict(LC_ALL="C.UTF-8")]))
        T.stub("sort", SORT)
    if r.random() < .2: e["TZ"] = r.choice(["Asia/Tokyo", "UTC", "America/St_Johns"])
    if r.random() < .2: e["POSIXLY_CORRECT"] = 1
    if r.random() < .2: (T.dir / "own").mkdir(); e["TMPDIR"] = T.dir / "own"
    if r.random() < .2: e["CDPATH"] = "/tmp:/"
    return " ".join(f"{k}={str(v)[-12:]}" for k, v in sorted(e.items()))
def drv(T, t, n, o, p, r):
    s, e = slurm(T, r); fl = [common.flags(o, p), s]; r.shuffle(fl)
    x = T.run("./driver.sh", t, n, *fl[0], *fl[1], env=e); return x.returncode, x
def staged(T, t, n, o, p, r):
    (s1, e1), (s2, e2) = slurm(T, r), slurm(T, r)
    for cmd, e in ((["./pairs.sh", t, n, *common.flags(o, p), *s1], e1), (["./sortpairs.sh", t, n, *s2], e2), (["./join_pairs.sh", t, n], e1)):
        x = T.run(*cmd, env=e)
        if x.returncode: return x.returncode, x
    return 0, x
def twice(T, t, n, o, p, r):
    for k in range(2):
        x = T.run("./driver.sh", t, n, *common.flags(o if k else r.choice(OPTS), p if k else r.choice(PAIRINGS)), *(["-d"] if k else []))
        if x.returncode: return x.returncode, x
    return 0, x
def rejoin(T, t, n, o, p, r):
    rc, x = staged(T, t, n, o, p, r)
    if rc == 0: x = T.run("rust", "join", t, n)
    return x.returncode, x
def finish(T, t, n):
    x = T.run("./sortpairs.sh", t, n)
    if x.returncode == 0: x = T.run("./join_pairs.sh", t, n)
    return x.returncode, x
def pieces(T, t, n, o, p, r, cmds):
    """runs the commands of distributed jobs concurrently in random order"""
    r.shuffle(cmds)
    par = r.choice([1, 2, 4])
    for x in vf.pmap(lambda c: T.run("rust", *c), cmds, par):
        if x.returncode: return x.returncode, x
    return finish(T, t, n)
def per_rowsum(T, t, n, o, p, r):
    T.find(t, n).mkdir(parents=True)
    return pieces(T, t, n, o, p, r, [["pairs_rowsum", t, n, *rs, o, p] for rs in common.rowsums_of(t, n)])
def per_pair(T, t, n, o, p, r, create=False):
    T.find(t, n).mkdir(parents=True)
    rows = common.rowsums_of(t, n)
    if create:
        r.shuffle(rows)
        for rs in rows:
            x = T.run("rust", "create", t, n, *rs, p)
            if x.returncode: return x.returncode, x
    return pieces(T, t, n, o, p, r, [["pair_single", t, n, *rs, o, p, k] for rs in rows for k in (1, 2)])
def per_pair_created(T, t, n, o, p, r): return per_pair(T, t, n, o, p, r, True)
def some_twice(T, t, n, o, p, r):
    """a distributed job that was restarted: some pieces run again, after attempts with either matching method, complete or cut"""
    T.find(t, n).mkdir(parents=True); rows = common.rowsums_of(t, n)
    if r.random() < .7: cmds = [["pair_single", t, n, *rs, o, p, k] for rs in rows for k in (1, 2)]
    else: cmds = [["pairs_rowsum", t, n, *rs, o, p] for rs in rows]
    for c in r.sample(cmds, min(4, len(cmds))):
        c = list(c); c[7] = r.choice(vf.OPTS); x = T.run("rust", *c)
        if x.returncode: return x.returncode, x
        if r.random() < .4:   # as a killed attempt leaves them
            for f in sorted(T.find(t, n).glob("rowsum_*/*")):
                if r.random() < .5: b = f.read_bytes(); f.write_bytes(b[:r.randrange(len(b) + 1)])
    return pieces(T, t, n, o, p, r, cmds)
def mixed(T, t, n, o, p, r):
    """rowsum by rowsum, by whichever command, generated and sorted one after the other"""
    T.find(t, n).mkdir(parents=True)
    rows = common.rowsums_of(t, n); r.shuffle(rows)
    for rs in rows:
        if r.random() < .5: cmds = [["pairs_rowsum", t, n, *rs, o, p]]
        else:
            cmds = [["pair_single", t, n, *rs, o, p, k] for k in (1, 2)]; r.shuffle(cmds)
            if r.random() < .5: cmds.insert(0, ["create", t, n, *rs, p])
        for cm in cmds:
            x = T.run("rust", *cm)
            if x.returncode: return x.returncode, x
        if r.random() < .5:
            x = T.run("./sortpairs.sh", t, n)
            if x.returncode: return x.returncode, x
    return finish(T, t, n)
WAYS = [("driver", drv)] * 4 + [("staged", staged)] * 2 + [("driver twice", twice), ("join twice", rejoin), ("per rowsum", per_rowsum), ("per pair", per_pair),
        ("per pair, created", per_pair_created), ("pieces repeated", some_twice), ("mixed", mixed)]
def one(job):
    t, n, i = job
    r = vf.rng(f"c04/{job}")
    name, f = WAYS[i % len(WAYS)]
    if i < 4: o, p = [("psd", "WZ"), ("correlation", "WZ"), ("psd", "WX"), ("correlation", "WY")][i]   # the driver, first of all
    else: o, p = r.choice(OPTS), r.choice(PAIRINGS)
    T = vf.Tree(); sur = surroundings(T, r) if i % 3 else ""
    rc, x = f(T, t, n, o, p, r)
    out = {k: T.lines(t, n, k) for k in (["result.seq", "result-qts.seq"] if t == "wts" else ["result.seq"])}
    tail = (T.text(t, n, "result.log") or "")[-600:] + x.stdout[-300:] + x.stderr[-500:]
    T.rm()
    return (t, n), f"{t} n={n} by {name} {o} {p}{' with ' * bool(sur)}{sur}", rc, out, tail
def main():
    c = vf.Check("C04", rule="a search run in one of several ways, its sets of lines compared with those of the first run; distinct = (type, n, way, option, pairing)")
    top = dict(wts=11, qts=10, ws=16) if THOROUGH else dict(wts=9, qts=8, ws=12)
    jobs = [(t, n, i) for t in top for n in range(1, top[t] + 1) for i in range(len(WAYS) * (2 if THOROUGH else 1))]
    if not THOROUGH: jobs += [(t, n, i) for t, n in (("wts", 11), ("wts", 10), ("qts", 9), ("ws", 14), ("ws", 13)) for i in (0, 1, 3, 5, 8, 9, 12)]
    jobs.sort(key=lambda j: -(2 ** j[1]) * dict(wts=6, qts=8, ws=0.1)[j[0]])
    ref = {}
    for k, name, rc, out, tail in sorted(vf.pmap(one, jobs), key=lambda x: x[1]):
        c.ok(1, name); c.stat("runs"); c.stat("runs " + name.split(" by ")[1].split(" with ")[0].rsplit(" ", 2)[0])
        if rc != 0 or any(v is None for v in out.values()): c.bad(f"{name}: did not complete (status {rc})", tail); continue
        c.stat("lines", sum(map(len, out.values())))
        for l, v in out.items():
            first, want = ref.setdefault((*k, l), (name, sorted(v)))
            if sorted(v) != want: c.bad(f"{name}: {l} differs from that of {first}", f"{sorted(v)}\n{want}")
        c.sample(f"{name}: {len(out['result.seq'])} sequences")
    # planted searches: the same candidates under all methods and pairings
    pb = vf.probe("match")
    if pb:
        nd = common.needles()
        def needle(job):
            t, n = job
            r = vf.rng(f"c04n/{job}"); block = common.needle_block(t, n, r, classes=3)
            res = []
            for o in OPTS:
                for p in PAIRINGS:
                    T, x = common.needle_tree(t, n, o, p, block, pb)
                    if x.returncode == 0: x = T.run("./sortpairs.sh", t, n)
                    if x.returncode == 0: x = T.run("rust", "join", t, n)
                    res.append((f"planted {t} n={n} {o} {p}", x.returncode, T.lines(t, n, "result.seq"), x.stderr[-500:])); T.rm()
            return res
        js = [(t, n) for t in nd for n in range(9, 32) if nd[t][n]]
        if not THOROUGH: js = vf.rng('c04n').sample(js, min(30, len(js)))
        js.sort(key=lambda j: -j[1])
        for res in vf.pmap(needle, js):
            for name, rc, v, tail in res:
                c.ok(1, name); c.stat("planted_runs")
                if rc != 0 or v is None: c.bad(f"{name}: did not complete (status {rc})", tail); break
                if sorted(v) != sorted(res[0][2]): c.bad(f"{name}: differs from {res[0][0]}", f"{v}\n{res[0][2]}")
    return c.finish()
