"""C14: the scripts under failing stages.  The program, cargo and sort are replaced by recorders that fail, die or stop
half-way at a chosen call and otherwise hand over to the real ones; the recorded sequence of stages, the exit status and
the files left are compared with what the script has to do."""
import itertools, os, shutil
import vf, common
from vf import THOROUGH
STAGES = ["pairs", "join", "convert hm", "convert qhm"]
REC = '''#!/bin/bash
# recorder: logs the call, counts it, and fails in the requested way when it is its turn
me=%(me)s; log=%(log)s
line="$me $*"
(flock 9; echo "$line" >&9) 9>>"$log"
if [ -n "$STUB_FAIL" ] && [[ "$line" == $STUB_FAIL* ]]; then
  k=$(grep -c -- "^$STUB_FAIL" "$log")
  if [ "$k" = "${STUB_AT:-1}" ]; then
    case "$STUB_HOW" in
      1|2|101|137|255) exit $STUB_HOW;;
      kill) kill -KILL $$;;
      segv) kill -SEGV $$;;
      term) kill -TERM $$;;
      after) %(real)s "$@"; exit 3;;
      half) %(real)s "$@" | head -c 40; exit 2;;
    esac
  fi
fi
exec %(real)s "$@"
'''
def tree(state=None):
    T = vf.Tree(); T.log = T.dir / "stages.log"
    b = T.dir / "target/release/rust"; real = os.path.realpath(b); b.unlink()
    vf.put_exec(b, REC % dict(me="rust", log=T.log, real=real))
    T.stub("cargo", REC % dict(me="cargo", log=T.log, real="/bin/true")); T.stub("sort", REC % dict(me="sort", log=T.log, real="/usr/bin/sort"))
    if state: shutil.copytree(state, T.dir / "results", dirs_exist_ok=True)
    return T
def stages(T):
    """recorded calls without details: ['cargo', 'pairs', 'sort', ..., 'join', ...]"""
    out = []
    if not T.log.exists(): return out
    for l in T.log.read_text().split("\n"):
        f = l.split()
        if not f: continue
        if f[0] == "rust": out.append(" ".join(f[1:3]) if f[1:2] == ["convert"] else (f[1] if len(f) > 1 else "?"))
        else: out.append(f[0])
    return out
def compact(s): return [k for k, _ in itertools.groupby(s)]
# the order in which stages may follow one another in the driver
RANK = {"cargo": 0, "pairs": 1, "sort": 2, "join": 3, "convert hm": 4, "convert qhm": 5}
HOWS = ["1", "101", "kill", "segv", "after", "half", "2", "term", "255", "137"]
def main():
    c = vf.Check("C14", level="fault_enumeration", rule="one run of a script with one failing stage or one combination of arguments; distinct = distinct (script, arguments, failing stage, way of failing)")
    r = vf.rng("c14")
    # states to start from
    root = vf.scratch_root() / "c14"; states = {}
    def prep(tn):
        t, n = tn; T = vf.Tree()
        for k, cmd in enumerate([["./pairs.sh", t, n], ["./sortpairs.sh", t, n], ["rust", "join", t, n], ["rust", "convert", "hm", t, n]]):
            x = T.run(*cmd)
            if x.returncode: raise vf.Undisturbed(f"{cmd}: {x.stderr[-400:]}")
            states[t, n, k + 1] = root / f"{t}{n}{k}"; shutil.copytree(T.dir / "results", states[t, n, k + 1])
        T.rm()
    tns = [("ws", 5), ("qts", 4), ("wts", 5)] + ([("ws", 8), ("qts", 6), ("wts", 7)] if THOROUGH else [])
    vf.pmap(prep, tns)
    jobs = []
    for t, n in tns:
        def scripts():
            base = common.flags(r.choice(vf.OPTS), r.choice(vf.PAIRINGS))
            yield "driver.sh", [t, n, *base, "-h"], None, ["cargo", "pairs", "sort", "join", "convert hm", "convert qhm"]
            yield "driver.sh", [t, n, *base], None, ["cargo", "pairs", "sort", "join", "convert qhm"]
            yield "driver.sh", [t, n, *base, "-s", "-h"], None, ["pairs", "sort", "join", "convert hm", "convert qhm"]
            yield "driver.sh", [t, n, "-d", *base], states[t, n, 2], ["cargo", "pairs", "sort", "join", "convert qhm"]
            yield "pairs.sh", [t, n, *base], None, ["cargo", "pairs"]
            yield "pairs.sh", [t, n, *base, "-s"], None, ["pairs"]
            yield "sortpairs.sh", [t, n], states[t, n, 1], ["sort"]
            yield "sortpairs.sh", [t, n, "-s"], states[t, n, 1], ["sort"]
            yield "join_pairs.sh", [t, n], states[t, n, 2], ["join"]
            yield "convert_hm.sh", [t, n], states[t, n, 3], ["convert hm"]
            yield "convert_qhm.sh", [t, n], states[t, n, 3], ["convert qhm"]
        for s, a, st, want in scripts():
            jobs.append((t, n, s, a, st, want, None, None, 1))
            for w in want:
                for h in (HOWS if THOROUGH else r.sample(HOWS, 3)):
                    jobs.append((t, n, s, a, st, want, w, h, 1 if w != "sort" else r.choice([1, 2, 3, 4])))
    def go(j):
        t, n, s, a, st, want, fail, how, at = j; T = tree(st); slurm = T.dir / "slurm"; slurm.mkdir()
        name = f"{s} {' '.join(map(str, a))}"
        env = T.env(SLURM_TMPDIR=slurm)
        if fail: env.update(STUB_FAIL=fail if fail in ("cargo", "sort") else "rust " + fail, STUB_HOW=how, STUB_AT=str(at))
        before = {p: p.read_bytes() for p in T.find(t, n).rglob("*.pair")} if T.find(t, n).exists() else {}
        x = T.run("./" + s, *a, env=env); got = stages(T); comp = compact(got)
        c.stat("stages_recorded", len(got))
        left = sorted(str(p.relative_to(T.find(t, n))) for p in T.find(t, n).rglob("*") if p.is_file()) if T.find(t, n).exists() else []
        hit = fail is None or got.count(fail) >= at
        if not hit: c.stat("failure_not_reached"); T.rm(); return
        c.ok(1, f"{name} | {fail} {how}"); c.stat("runs_" + s)
        if fail is None:
            if x.returncode != 0: c.bad(f"{name}: exit status {x.returncode} although every stage succeeded", x.stdout[-800:] + x.stderr[-800:])
            miss = [w for w in want if w not in got and w != "cargo"]
            if miss: c.bad(f"{name}: stage {', '.join(miss)} was never run", "\n".join(got))
            ranks = [RANK.get(k, 9) for k in comp]
            if s == "driver.sh" and ranks != sorted(ranks): c.bad(f"{name}: stages in the wrong order", "\n".join(comp))
            if s == "driver.sh" and "-h" not in a and "convert hm" in got: c.bad(f"{name}: converts to Hadamard matrices without being asked")
            c.stat("all_stages_succeed")
        else:
            c.stat(f"failed_{fail.replace(' ', '_')}"); c.stat(f"how_{how}")
            w = f"{name}: {fail}{'' if at == 1 else f' (call {at})'} {dict(kill='killed', segv='crashing', term='terminated', after='finishing, then failing', half='stopping half-way').get(how, 'exiting with status ' + how)}"
            if x.returncode == 0: c.bad(f"{w}: the script reports success", x.stdout[-800:] + x.stderr[-800:])
            if s == "driver.sh":
                later = [k for k in got if RANK.get(k, 9) > RANK[fail]]
                if later: c.bad(f"{w}: later stages were run: {', '.join(compact(later))}", "\n".join(got))
            if fail == "sort":
                # the input of the failed call must still be there, unchanged
                calls = [l.split() for l in T.log.read_text().split("\n") if l.startswith("sort ")]
                inp = [f for f in calls[at - 1][1:] if f.endswith(".pair")]
                for f in inp:
                    p = T.dir / f
                    if not p.exists(): c.bad(f"{w}: its input {f.split('/')[-1]} is gone", "\n".join(left))
                    elif before and before.get(p) != p.read_bytes(): c.bad(f"{w}: its input {f.split('/')[-1]} was changed")
                c.stat("sort_inputs_checked", len(inp))
            if c.evals % 60 == 1: c.sample(f"{w} -> status {x.returncode}, stages {comp}")
        T.rm()
    vf.pmap(go, jobs)
    # flags in any order and grouping reach the pair generation
    fj = []
    for s in ("driver.sh", "pairs.sh"):
        for _ in range(60 if THOROUGH else 14):
            t, n = r.choice([("ws", 3), ("qts", 3), ("wts", 4), ("ws", 4)]); o, p = r.choice(vf.OPTS), r.choice(vf.PAIRINGS + [None])
            fl = [["-p", p] if r.random() < .5 else ["-p" + p]] if p else []
            if o == "correlation": fl.append(["-c"])
            for x in "ds" + ("h" if s == "driver.sh" else ""):
                if r.random() < .4: fl.append(["-" + x])
            r.shuffle(fl)
            if len(fl) > 1 and r.random() < .5 and len(fl[0][0]) == 2 and fl[0][0] != "-p": fl = [["-" + fl[0][0][1] + fl[1][0][1:], *fl[1][1:]]] + fl[2:]
            fj.append((s, t, n, o, p, [str(y) for x in fl for y in x]))
    def flagrun(j):
        s, t, n, o, p, fl = j; T = tree(); slurm = T.dir / "slurm"; slurm.mkdir(); name = f"{s} {t} {n} {' '.join(fl)}"
        x = T.run("./" + s, t, n, *fl, env=T.env(SLURM_TMPDIR=slurm)); c.ok(1, name); c.stat("flag_combinations")
        if x.returncode: c.bad(f"{name}: exit status {x.returncode}", x.stdout[-500:] + x.stderr[-500:])
        calls = [l.split()[1:] for l in T.log.read_text().split("\n") if l.startswith("rust pairs")] if T.log.exists() else []
        if calls != [["pairs", t, str(n), o, p or "WZ"]]: c.bad(f"{name}: pair generation was called as {calls}")
        hm = "convert hm" in stages(T)
        if s == "driver.sh" and hm != any("h" in f for f in fl if f.startswith("-")): c.bad(f"{name}: Hadamard conversion {'run' if hm else 'not run'}")
        T.rm()
    vf.pmap(flagrun, fj)
    # rejected calls and help
    bad = []
    for s in ("driver.sh", "pairs.sh"):
        for t, n in (("ws", "3"), ("qts", "4")):
            for f in (["-x"], ["-q"], ["-z", "-c"], ["-c", "-x"], ["-p", "WX", "-k"], ["--frobnicate"], ["-p"], ["-cx"], ["-s", "-y"]) + ((["-h"],) if s == "pairs.sh" else ()):
                bad.append((s, [t, n, *f]))
            bad.append((s, [t])); bad.append((s, [t, ""])); bad.append((s, ["", n]))
    for s in ("driver.sh", "pairs.sh", "sortpairs.sh", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh", "countpairs.sh"):
        for h in ([], ["help"], ["-h"], ["--help"]): bad.append((s, h))
    bad.append(("pair_file_cleanup.sh", []))
    def reject(j):
        s, a = j; T = tree(states["ws", 5, 2]); before = common.snapshot(T.dir); name = f"{s} {' '.join(repr(x) if not x else x for x in a)}".strip()
        x = T.run("./" + s, *a); got = stages(T); c.ok(1, name)
        isref = a and a[0] not in ("help", "-h", "--help")
        c.stat("rejected_calls" if isref else "help_requests")
        if isref and x.returncode == 0: c.bad(f"{name}: not rejected", x.stdout[-300:])
        if not isref and x.returncode != 0: c.bad(f"{name}: help exits with status {x.returncode}", x.stderr[-300:])
        if got: c.bad(f"{name}: runs {got}")
        after = common.snapshot(T.dir); ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        if ch: c.bad(f"{name}: changes files: {ch[:4]}")
        T.rm()
    vf.pmap(reject, bad)
    # -s without a compiled program
    for s in ("driver.sh", "pairs.sh"):
        T = tree(); (T.dir / "target/release/rust").unlink(); x = T.run("./" + s, "ws", 3, "-s"); c.ok(1, s + " -s without program"); c.stat("rejected_calls")
        if x.returncode == 0: c.bad(f"{s} -s: reports success without a compiled program")
        T.rm()
    return c.finish()
