"""C26: several computations at once in one results tree; each must end as if it had been alone, and nothing else may change."""
import re, shutil, threading, time
import vf, common
from vf import OPTS, PAIRINGS, THOROUGH
from c13 import norm
LENS = dict(ws=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], qts=[1, 2, 3, 4, 5, 6, 7], wts=[1, 2, 3, 4, 5, 6, 7, 8])
def cmds(job):
    """the commands of a computation, one after the other; a list within the list runs simultaneously"""
    kind, t, n, o, p, x = job; fl = common.flags(o, p)
    rows = common.rowsums_of(t, n)
    if kind == "driver": return [["./driver.sh", t, n, *fl]]
    if kind == "driver-s": return [["./driver.sh", t, n, *fl, "-s"]]
    if kind == "driver-h": return [["./driver.sh", t, n, *fl, "-h"]]
    if kind == "driver-d": return [["./driver.sh", t, n, *fl, "-d"]]
    if kind == "staged": return [["./pairs.sh", t, n, *fl], ["./sortpairs.sh", t, n], ["./join_pairs.sh", t, n], [["./convert_hm.sh", t, n], ["./convert_qhm.sh", t, n]]]
    if kind == "jobs": return [["mkdir", "-p", f"results/pairs/{t}/find_{n}"], [["rust", "pair_single", t, n, *rs, o, p, k] for rs in rows for k in (1, 2)], ["./sortpairs.sh", t, n], ["./join_pairs.sh", t, n]]
    if kind == "convert": return [[["./convert_hm.sh", t, n], ["./convert_qhm.sh", t, n], ["rust", "qhm-all", t, n]]]
    if kind == "clean": return [["./pair_file_cleanup.sh", t, n]]
    if kind == "count": return [["./countpairs.sh", t, n], ["./collect_results.py", n, n, t, "t"]]
    if kind == "sort": return [["./sortpairs.sh", t, n, *(["-s"] if o == "psd" else [])]]
    if kind == "join": return [["./join_pairs.sh", t, n]]
    if kind == "hm": return [["./convert_hm.sh", t, n]]
    if kind == "qhm": return [["./convert_qhm.sh", t, n]]
    if kind == "none": return []
    raise KeyError(kind)
# computations that start from a completed search
AFTER = ("driver-d", "convert", "clean", "count", "none", "hm", "qhm")
# and from its earlier stages
STAGE = {"sort": 0, "join": 1}
def execute(T, job, par=8, delay=lambda: None):
    outs = []
    for c in cmds(job):
        group = c if isinstance(c[0], list) else [c]
        delay()
        rs = vf.pmap(lambda g: T.run(*(["./target/release/rust"] + g[1:] if g[0] == "rust" else g), env=T.env(SLURM_TMPDIR=T.dir / "slurm")), group, par) if len(group) > 1 else [T.run(*(["./target/release/rust"] + g[1:] if g[0] == "rust" else g), env=T.env(SLURM_TMPDIR=T.dir / "slurm")) for g in group]
        outs += [(" ".join(map(str, g)), x) for g, x in zip(group, rs)]
        if any(x.returncode for x in rs): break
    return outs
TIMES = re.compile(r"\d+(\.\d+)?(?= sec)|\.\d+(?= sec)")
def content(p, strict):
    if p.name == "result.qhm": return tuple(sorted(p.read_text(errors="replace").split("\n")))
    if p.name == "result.log":
        # simultaneous conversions and the order of directories leave the order of lines open
        return tuple(sorted(TIMES.sub("T", l) for l in p.read_text(errors="replace").split("\n"))) if strict else None
    return norm(p)
def snap(d, strict=True):
    return {str(p.relative_to(d)): content(p, strict) for p in sorted(d.rglob("*")) if p.is_file()} if d.exists() else {}
_prior = {}; _pl = threading.Lock(); _alone = {}
def prior(t, n, stage=2):
    """a completed search (or one whose pairs are made, or sorted) to start from (kept as a directory)"""
    with _pl: l = _prior.setdefault((t, n, stage), [threading.Lock(), None])
    with l[0]:
        if l[1] is None:
            T = vf.Tree(); x = T.run("./driver.sh", t, n, "-c") if stage == 2 else T.run("./pairs.sh", t, n, "-p", "WY")
            if stage == 1 and x.returncode == 0: x = T.run("./sortpairs.sh", t, n)
            l[1] = T.find(t, n) if x.returncode == 0 else False
    return l[1]
def place(T, job):
    if job[0] in AFTER or job[0] in STAGE:
        s = prior(job[1], job[2], STAGE.get(job[0], 2))
        if s: shutil.copytree(s, T.find(job[1], job[2]))
        return bool(s)
    return True
def alone(job):
    """(files, printed numbers) of the computation in a tree of its own"""
    with _pl: l = _alone.setdefault(job, [threading.Lock(), None])
    with l[0]:
        if l[1] is None:
            T = vf.Tree(); (T.dir / "slurm").mkdir()
            if not place(T, job): l[1] = (None, None)
            else:
                o = execute(T, job, 1)
                l[1] = (snap(T.find(job[1], job[2])), said(job, o)) if not any(x.returncode for _, x in o) else (None, None)
            T.rm()
    return l[1]
def said(job, outs): return [x.stdout for _, x in outs] if job[0] == "count" else None
def same(a, b):
    if a == b: return True
    # the representatives of the Hadamard classes are free
    return isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("mat",) == b[:1] and len(a) == len(b)
def main():
    c = vf.Check("C26", rule="a computation that ran among others compared with the same computation alone; distinct = (computation, companions)")
    lib = vf.faultlib()
    def round(h):
        r = vf.rng(f"c26/{h}")
        kinds = ["driver", "driver", "driver-s", "driver-h", "driver-d", "staged", "jobs", "convert", "clean", "count", "none"]
        pool = [(t, n) for t in LENS for n in LENS[t]]; r.shuffle(pool)
        m = r.randint(3, 7)
        if r.random() < .5:   # lengths whose names begin alike, or one length of every type
            close = [("ws", n) for n in (1, 10, 11, 12)] if r.random() < .5 else (lambda n: [(t, n) for t in ("ws", "qts", "wts")])(r.randint(2, 7))
            pool = close + [x for x in pool if x not in close]
        jobs = [(r.choice(kinds), t, n, r.choice(OPTS), r.choice(PAIRINGS), 0) for t, n in pool[:m]]
        if h % 3 == 2:   # the same stage of several computations at the same moment
            k = r.choice(["hm", "hm", "join", "join", "sort", "qhm", "driver", "count"])
            jobs = [(k, t, n, r.choice(OPTS), r.choice(PAIRINGS), 0) for t, n in (pool[:r.randint(4, 8)])]
        elif not any(j[0] in ("driver", "driver-h", "driver-s", "driver-d", "staged", "jobs") for j in jobs): jobs[0] = ("driver",) + jobs[0][1:]
        ref = {j: alone(j) for j in jobs}
        usable = [j for j in jobs if ref[j][0] is not None]
        if len(usable) < len(jobs): c.note("a computation does not complete when alone: " + str([j for j in jobs if j not in usable][:2]))
        if len(usable) < 2: return
        T = vf.Tree(); (T.dir / "slurm").mkdir(); base = T.dir / "results" / "pairs"
        # every command of the scripts starts a little late, by a different amount
        ms = r.choice([0, 5, 20, 60])
        # a sort that does not fit its buffer keeps scratch files in the folder it is given
        T.stub("sort", f'''#!/bin/bash
d=${{TMPDIR:-/tmp}}; a=("$@"); for ((i = 0; i < $#; i++)); do case "${{a[i]}}" in -T) d=${{a[i+1]}};; -T?*) d=${{a[i]#-T}};; --temporary-directory=*) d=${{a[i]#*=}};; esac; done
f=$(mktemp -p "$d" sortXXXXXX) || {{ echo "sort: cannot create temporary file in '$d'" >&2; exit 2; }}
sleep 0.$(printf %03d $((RANDOM % {ms + 1})))
/usr/bin/sort "$@"; s=$?
sleep 0.$(printf %03d $((RANDOM % {ms + 1})))
rm "$f" 2>/dev/null || {{ echo "sort: open failed: $f" >&2; s=2; }}
exit $s
''')
        # commands that look first and act then have time in between for somebody else to act
        late = r.choice([0, ms, 100, 300])
        for cmd in ("mkdir", "mv", "cp", "touch", "ln", "mktemp"): T.stub(cmd, f'#!/bin/bash\nsleep 0.$(printf %03d $((RANDOM % {late + 1})))\nexec /usr/bin/{cmd} "$@"\n')
        c.stat(f"rounds_with_late_commands_{late}")
        # and the file operations of the program are spread out in time
        us = r.choice([0, 2000, 10000, 30000]) if h % 3 != 2 else r.choice([2000, 10000, 30000, 60000]); slow = f'export LD_PRELOAD="{lib}" FAULT_DIR="{T.dir}/results" FAULT_DELAY={us}\n' if us else ""; c.stat(f"rounds_with_delays_{us}")
        prog = T.dir / "target" / "release" / "rust"; prog.unlink()
        vf.put_exec(prog, f'#!/bin/bash\nsleep 0.$(printf %03d $((RANDOM % {ms + 1})))\n{slow}exec "{T.binary}" "$@"\n')
        for j in usable: place(T, j)
        starts = {j: r.random() * (r.choice([0, .05, .4]) if h % 3 != 2 else .02) for j in usable}; res = {}
        def go(j): time.sleep(starts[j]); res[j] = execute(T, j)
        ts = [threading.Thread(target=go, args=(j,)) for j in usable]
        [t.start() for t in ts]; [t.join() for t in ts]
        what = "; ".join(f"{j[0]} {j[1]} {j[2]} {j[3]} {j[4]}" for j in usable)
        for j in usable:
            name = f"{j[0]} {j[1]} n={j[2]} {j[3]} {j[4]} among others"; files, text = ref[j]
            c.ok(1, f"{j[:5]} with {len(usable)}"); c.stat("computations " + j[0]); c.stat("commands", len(res[j]))
            fail = [(k, x) for k, x in res[j] if x.returncode]
            if fail: c.bad(f"{name}: {fail[0][0]} exits with status {fail[0][1].returncode}", what + "\n" + fail[0][1].stdout[-600:] + fail[0][1].stderr[-600:]); continue
            if text is not None and said(j, res[j]) != text: c.bad(f"{name}: prints {said(j, res[j])}", f"{what}\nalone: {text}")
            got = snap(T.find(j[1], j[2])); c.stat("files_compared", len(files))
            for k in sorted(set(files) | set(got)):
                if k not in got: c.bad(f"{name}: {k} is missing", what); break
                if k not in files: c.bad(f"{name}: {k} exists although it does not when alone", what); break
                if not same(got[k], files[k]): c.bad(f"{name}: {k} is not as when alone", f"{what}\n{str(files[k])[:1500]}\n{str(got[k])[:1500]}"); break
        known = {base / j[1] / f"find_{j[2]}" for j in usable}
        for d in sorted(base.glob("*/*")):
            if d not in known: c.bad(f"{d.relative_to(T.dir)} appeared", what)
        for j in usable:
            c.stat("overlaps", len(usable) - 1)
        T.rm(); c.stat("rounds")
        if h % 15 == 0: c.sample(what[:500])
    vf.pmap(round, range(360 if THOROUGH else 105), 4)
    return c.finish()
