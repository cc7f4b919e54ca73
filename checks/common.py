"""Workloads shared by the checks of the search pipeline: the configuration matrix run through the real
driver, and planted candidate directories ("needles") for lengths no search can reach here."""
import os, random, subprocess, collections
import vf
from vf import THOROUGH, OPTS, PAIRINGS

NEEDLES = {t: collections.defaultdict(list) for t in ("wts", "qts", "ws")}
for l in (vf.VERIF / "data" / "needles.txt").read_text().split("\n"):
    if l: _t, _n, _s = l.split(); NEEDLES[_t][int(_n)].append(_s)
def needles():
    """{type: {n: [class ids]}}: genuine sequences of every length up to 31"""
    return NEEDLES
# lengths up to which data/needles.txt holds every class (own exhaustive enumeration)
COMPLETE = dict(ws=31, qts=13, wts=16)
_exp = {}
def expected(t, n):
    """all classes; recomputed by the oracle where that is quick"""
    if n <= dict(ws=20, qts=11, wts=14)[t]: return vf.enum(t, n)
    assert n <= COMPLETE[t]
    return set(needles()[t][n])
def wts_to_qts(ids):
    """all QT classes contained in the given Williamson-type classes"""
    ids = sorted(ids)
    return set(x for l in vf.orc(["wtsqt"], ids) for x in l.split()) if ids else set()

class Run:
    def __init__(s, t, n, opt, pairing, tree, rc, out, planted=False):
        s.t, s.n, s.opt, s.pairing, s.rc, s.out, s.planted = t, n, opt, pairing, rc, out, planted
        s.seq = tree.lines(t, n, "result.seq"); s.qseq = tree.text(t, n, "result.qseq")
        s.qts = tree.lines(t, n, "result-qts.seq"); s.qqseq = tree.text(t, n, "result-qts.qseq")
        s.log = tree.text(t, n, "result.log")
        s.name = f"{'planted ' if planted else ''}{t} n={n} {opt} {pairing}"
        s.want = None
    def lists(s):
        """(list name, type, lines)"""
        r = [("result.seq", s.t, s.seq)]
        if s.t == "wts": r.append(("result-qts.seq", "qts", s.qts))
        return r
def judge(run):
    """the oracle's verdict on every line of both lists: {name: [(line, (n, valid, perfect, class) or None)]}"""
    return {name: list(zip(lines or [], vf.classify(t, lines or []))) for name, t, lines in run.lists()}

def flags(opt, pairing, extra=()):
    return ["-p", pairing, *(["-c"] if opt == "correlation" else []), *extra]
def matrix_jobs(quick, thorough):
    """quick/thorough: {type: (max n in every configuration, [(n, number of configurations)...])}"""
    spec = thorough if THOROUGH else quick
    r = vf.rng("matrix"); jobs = []
    cfg = [(o, p) for o in OPTS for p in PAIRINGS]
    for t, (full, more) in spec.items():
        jobs += [(t, n, o, p) for n in range(1, full + 1) for o, p in cfg]
        for n, k in more: jobs += [(t, n, o, p) for o, p in r.sample(cfg, k)]
    jobs.sort(key=lambda j: -(2 ** j[1]) * dict(wts=6, qts=8, ws=0.1)[j[0]])
    return jobs
QUICK = dict(ws=(15, [(16, 2), (17, 2), (18, 1), (19, 1), (20, 1)]), qts=(10, [(11, 3)]), wts=(12, [(13, 2)]))
DEEP = dict(ws=(20, [(21, 1), (22, 1)]), qts=(12, []), wts=(13, [(14, 2), (15, 2)]))

def driver_run(job, extra=(), keep=None, timeout=3000):
    t, n, o, p = job
    T = vf.Tree()
    r = T.run("./driver.sh", t, n, *flags(o, p, extra), timeout=timeout)
    run = Run(t, n, o, p, T, r.returncode, r.stdout[-1500:] + r.stderr[-1500:])
    if keep: keep(T, run)
    T.rm()
    return run
def matrix(quick=QUICK, thorough=DEEP, extra=(), keep=None):
    return vf.pmap(lambda j: driver_run(j, extra, keep), matrix_jobs(quick, thorough))

# ------------------------------------------------------------------ needles
def decoys(t, n, comps, r, k):
    """other sequences with the same sums as the given components (same correlations too, for some)"""
    out = set()
    for c in comps:
        if t != "ws":
            for _ in range(2):
                s = r.randrange(n); out.add(c[s:] + c[:s])
            out.add(c[::-1])
        elif n % 2 == 0: out.add(c[n // 2:] + c[:n // 2])
    base = comps[0]
    for _ in range(k):
        if t != "ws":
            l = list(base); r.shuffle(l); out.add("".join(l))
        else:
            l = list(base[1:(n + 1) // 2]); r.shuffle(l)
            s = base[0] + "".join(l) + (base[n // 2] if n % 2 == 0 else "") + "".join(reversed(l))
            out.add(s)
    return out
def needle_block(t, n, r, classes=4, copies=2, ndecoys=8, big=0, shifts=0, crowd=0, pairing=None):
    """[(rowsum, {W: [...], ...})]: directories with genuine sequences among decoys.  big: the genuine sequences of one
    component stand behind that many decoys.  shifts: that many classes are there with every uniform shift, so that
    many pairs of both files share a key.  crowd: the genuine pair of one side stands among all its uniform shifts, each
    that many times (crowd * crowd * n pairs with one key, few of which fit)"""
    if crowd:
        classes = copies = 1
        duo = r.choice([tuple("WXYZ".index(x) for x in pairing), tuple(b for b in range(4) if "WXYZ"[b] not in pairing)])
    if big: classes = copies = 1; ndecoys = min(ndecoys, 2)
    cl = needles()[t][n]
    pick = r.sample(cl, min(classes, len(cl)))
    dirs = {}
    for l in vf.orc(["arrange", t, copies, r.randrange(1 << 40)], pick):
        if l == "none": raise RuntimeError("no arrangement")
        rs, *q = l.split()
        d = dirs.setdefault(rs, [set(), set(), set(), set()])
        for b in range(4):
            d[b].add(q[b])
            if shifts > 0 and t != "ws": d[b].update(x[s:] + x[:s] for x in (q[b], q[b][::-1]) for s in range(n))
        shifts -= 1
    res = []
    for rs, d in sorted(dirs.items()):
        lists = []
        for b in range(4):
            comps = sorted(d[b])
            x = set(comps) | decoys(t, n, comps, r, ndecoys)
            x = sorted(x); r.shuffle(x); lists.append(x)
        if crowd:
            for b in duo: l = [x[s:] + x[:s] for x in sorted(d[b]) for s in range(n) for _ in range(crowd)]; r.shuffle(l); lists[b] = l + [x for x in lists[b] if x not in l]
        if big:
            b = r.randrange(4); l = list(lists[b][0]); x = set(); tries = 0
            while len(x) < big and tries < 3 * big: r.shuffle(l); x.add("".join(l)); tries += 1
            lists[b] = sorted(x - set(lists[b])) + lists[b]
        res.append((rs, lists))
    return res
def block_lines(lists): return [f"{'WXYZ'[b]} {s}" for b in range(4) for s in lists[b]]
def needle_tree(t, n, opt, pairing, block, pb, tree=None):
    """writes the block's directories with the routines of the pair generation"""
    T = tree or vf.Tree()
    root = T.find(t, n); root.mkdir(parents=True, exist_ok=True)
    inp = "".join("R " + rs.replace(",", " ") + "\n" + "".join(l + "\n" for l in block_lines(ls)) for rs, ls in block)
    r = T.run(pb, "verif:match", t, opt, pairing, str(root), input=inp)
    return T, r
def needle_run(t, n, opt, pairing, r, pb, before_join=None, **kw):
    """planted search: returns a Run with .want = the classes that must be reported"""
    block = needle_block(t, n, r, pairing=pairing, **kw)
    T, pr = needle_tree(t, n, opt, pairing, block, pb)
    if pr.returncode != 0 or "DONE" not in pr.stdout:
        run = Run(t, n, opt, pairing, T, pr.returncode or 1, "pair generation: " + pr.stderr[-1500:], True)
    else:
        sr = T.run("./sortpairs.sh", t, n)
        if before_join: before_join(T, block)
        jr = T.run("rust", "join", t, n)
        run = Run(t, n, opt, pairing, T, sr.returncode or jr.returncode, (sr.stderr + jr.stdout + jr.stderr)[-3000:], True)
    sols = []
    for rs, ls in block: sols += vf.orc(["solve", t], block_lines(ls))
    run.want = set(c[3] for c in vf.classify(t, sorted(set(sols))))
    run.block = block; run.genuine = len(set(sols))
    T.rm()
    return run
def needle_runs(tag, per_length=None, types=("wts", "qts", "ws"), lengths=range(2, 32), **kw):
    pb = vf.probe("match")
    if pb is None: return []
    k = per_length or (4 if THOROUGH else 1)
    jobs = []
    for t in types:
        for n in lengths:
            for i in range(k):
                r = vf.rng(f"{tag}/{t}/{n}/{i}"); jobs.append((t, n, r.choice(OPTS), r.choice(PAIRINGS), r))
    jobs.sort(key=lambda j: -j[1])
    return vf.pmap(lambda j: needle_run(*j, pb, **kw), jobs)

# ------------------------------------------------------------------ helpers for the other checks
def probe_run(c, comp, args, lines=None, what=None, timeout=800, env=None, binary=None):
    """one run of the in-process monitors of a component; False if it does not compile"""
    pb = binary or vf.probe(comp)
    if pb is None: return False
    T = vf.Tree(scripts=False)
    r = T.run(pb, f"verif:{comp}", *args, input="".join(l + "\n" for l in lines) if lines is not None else "", timeout=timeout, env=T.env(**env) if env else None)
    c.probe_out(r, what or f"{comp} {' '.join(map(str, args))}")
    T.rm()
    return True
def grouped(types=("wts", "qts", "ws"), lengths=range(1, 32), per=None, r=None):
    """[(type, n, ids)] of the stored sequences; at most `per` of each"""
    out = []
    for t in types:
        for n in lengths:
            ids = needles()[t][n]
            if ids: out.append((t, n, list(ids) if per is None or len(ids) <= per else r.sample(ids, per)))
    return out
def spread(seqs, r, k=1):
    """k random equivalents of each (type, sequence)"""
    out = []
    for t in ("wts", "qts", "ws"):
        s = [x for u, x in seqs if u == t]
        if s: out += [(t, x) for x in vf.orc(["randeq", t, k, r.randrange(1 << 40)], s)]
    return out
def put_result(T, t, n, lines, name="result.seq"):
    d = T.find(t, n); d.mkdir(parents=True, exist_ok=True)
    (d / name).write_text("".join(l + "\n" for l in lines))
def snapshot(root, skip=()):
    """{relative path: (kind, content hash)}"""
    import hashlib, pathlib
    out = {}
    root = pathlib.Path(root)
    for p in sorted(root.rglob("*")):
        k = str(p.relative_to(root))
        if any(k == s or k.startswith(s + "/") for s in skip): continue
        if p.is_symlink(): out[k] = ("l", os.readlink(p))
        elif p.is_dir(): out[k] = ("d", "")
        else: out[k] = ("f", hashlib.sha256(p.read_bytes()).hexdigest())
    return out
def rowsums_of(t, n):
    """the rowsums the program lists for a length, from the candidates' directory names of the definition"""
    import itertools
    res = set()
    r = range(n % 2, int((4 * n) ** .5) + 1, 2)
    for a in r:
        for b in r:
            if b < a: continue
            for c in r:
                if c < b: continue
                d2 = 4 * n - a * a - b * b - c * c
                if d2 < c * c: continue
                d = int(d2 ** .5 + .5)
                if d * d == d2 and d % 2 == n % 2:
                    res.add((a, b, c, d))
                    if t == "qts" and a and a < b < c < d: res.add((a, b, c, -d))
    return sorted(res)
