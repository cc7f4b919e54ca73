"""C16: searches killed at chosen points (before, during and after every kind of file operation, half-way through sorting,
and at random times) and redone; the results are compared with those of an undisturbed run."""
import os, shutil, signal, subprocess, time
import vf, common
from vf import THOROUGH
from c13 import norm
from c15 import find_files, same, fresh
RESULT = ("result.seq", "result.qseq", "result-qts.seq", "result-qts.qseq", "result.mat", "result.qhm")
SORTSTUB = '''#!/bin/bash
log=%(log)s
echo sort >> "$log"
if [ "$(grep -c . "$log")" = "${SORT_AT:-0}" ]; then
  /usr/bin/sort "$@" | head -c ${SORT_BYTES:-0}
  [ "$SORT_HOW" = group ] && kill -${SORT_SIG:-KILL} 0
  kill -${SORT_SIG:-KILL} $$
  kill -KILL $$
fi
exec /usr/bin/sort "$@"
'''
SIGS = dict(KILL=signal.SIGKILL, TERM=signal.SIGTERM, INT=signal.SIGINT, HUP=signal.SIGHUP)
def run_killable(T, cmd, env, delay=None, sig="KILL", leader=False):
    """in a process group of its own; killed (as a whole, or only its first process) after a delay, or by itself"""
    p = subprocess.Popen([str(x) for x in cmd], cwd=T.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    killed = False
    try: out, _ = p.communicate(timeout=delay if delay is not None else 300)
    except subprocess.TimeoutExpired:
        killed = True
        try: (os.kill if leader else os.killpg)(p.pid, SIGS[sig])
        except ProcessLookupError: pass
        try: out, _ = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate()
    try: os.killpg(p.pid, signal.SIGKILL)   # nothing of the group may linger
    except (ProcessLookupError, PermissionError): pass
    return p.returncode, killed, out.decode(errors="replace")
def main():
    c = vf.Check("C16", level="fault_enumeration", rule="one interrupted search (or stage) redone and compared; distinct = (call, point of the kill, redoing call)")
    lib = vf.faultlib(); vf.cli()
    lens = dict(ws=[5, 7, 8, 9, 10, 12, 13], qts=[4, 5, 6, 7], wts=[5, 6, 7, 8]) if THOROUGH else dict(ws=[5, 7, 9, 10], qts=[4, 5, 6], wts=[5, 6, 7])
    def one(h):
        r = vf.rng(f"c16/{h}"); t = r.choice(["ws", "qts", "wts"]); n = r.choice(lens[t]); o, p = r.choice(vf.OPTS), r.choice(vf.PAIRINGS); hm = r.random() < .35
        T = vf.Tree(); T.stub("sort", SORTSTUB % dict(log=T.dir / "sort.log")); trace = []
        earlier = {}
        if r.random() < .4:   # an earlier completed run, possibly of another configuration
            o2, p2 = r.choice(vf.OPTS), r.choice(vf.PAIRINGS)
            x = T.run("./driver.sh", t, n, *common.flags(o2, p2), *(["-h"] if r.random() < .5 else [])); trace.append(f"driver {o2} {p2} -> {x.returncode}")
            earlier = {k: v for k, v in find_files(T, t, n).items() if k in RESULT}
        for rep in range(r.choice([1, 1, 2, 3])):
            mode = r.choice(["write", "write", "openw", "openw", "openr", "read", "mkdir", "sort", "sort", "delay", "delay"])
            o1, p1 = (o, p) if r.random() < .6 else (r.choice(vf.OPTS), r.choice(vf.PAIRINGS))
            cmd = ["./driver.sh", t, n, *common.flags(o1, p1), "-d", *(["-h"] if r.random() < .4 else [])]
            how = r.choice(["kill", "die"]); sl = T.dir / "sort.log"
            if sl.exists(): sl.unlink()
            log = T.dir / "fault.log"
            if log.exists(): log.unlink()
            delay = None; sig = r.choice(["KILL", "KILL", "TERM", "INT", "HUP"]); leader = r.random() < .3
            if mode == "delay": env = T.env(); delay = r.random() * r.choice([.05, .2, .6]); point = f"{sig}{' (script only)' if leader else ''} after {delay:.3f} s"
            elif mode == "sort": a, b = r.randint(1, 6), r.choice([0, 1, r.randint(1, 4000)]); env = T.env(SORT_AT=a, SORT_BYTES=b, SORT_SIG=sig, SORT_HOW="group" if how == "kill" else "self"); point = f"{how} {sig} in sort {a} after {b} bytes"
            else:
                k = r.randint(1, 12 if mode != "mkdir" else 3) if r.random() < .8 else r.randint(1, 60)
                env = T.env(LD_PRELOAD=lib, FAULT_DIR=T.dir / "results", FAULT_LOG=log, FAULT_KIND=mode, FAULT_K=k, FAULT_ACTION=how, **({} if sig == "KILL" else dict(FAULT_SIG=int(SIGS[sig])))); point = f"{how} {sig} at {mode} {k}"
            before = {k: v for k, v in find_files(T, t, n).items() if k in RESULT}
            rc, killed, out = run_killable(T, cmd, env, delay, sig, leader)
            fired = killed or (log.exists() and "FIRED" in log.read_text()) or (mode == "sort" and rc != 0)
            trace.append(f"{' '.join(map(str, cmd))}: {point} -> {rc}{'' if fired else ' (not reached)'}")
            if not fired: c.stat("points_not_reached"); continue
            c.stat(f"interrupted_{mode}"); c.ok(1, f"{t}{n}{' '.join(map(str, cmd))}{point}")
            c.stat(f"signal_{sig}")
            if rc == 0:   # (the kill may have come too late, or have hit a process whose work was done: then the results have to be complete)
                c.stat("finished_all_the_same"); f = fresh(t, n, o1, p1, "h" if "-h" in cmd else "plain"); got = find_files(T, t, n)
                for k in sorted(f or {}):
                    if k not in got or not same(got[k], f[k]): c.bad(f"{' '.join(map(str, cmd))}: {point}: the interrupted search reports success although {k} is {'missing' if k not in got else 'different'}", "\n".join(trace) + out[-800:]); break
            now = find_files(T, t, n)
            joined = "rust join" in out or "Matching" in out or "reducing" in out
            fs = list(now); joined = joined or (any(k.endswith(".sorted") for k in fs) and not any(k.endswith(".pair") for k in fs))
            if before and not joined:
                c.stat("earlier_results_checked")
                for k, v in before.items():
                    if now.get(k) != v: c.bad(f"{' '.join(map(str, cmd))}: {point}: {k} of the earlier run was {'removed' if k not in now else 'changed'} before the join", "\n".join(trace))
            for sub in ("tmp",):
                if r.random() < .1: (T.dir / sub).mkdir(exist_ok=True); (T.dir / sub / "sortAbc").write_text("left over\n")
        # leftovers of an interrupted run with other settings
        d = [x for x in T.find(t, n).glob("rowsum_*")] if T.find(t, n).exists() else []
        if d and r.random() < .3:
            (r.choice(d) / r.choice(["pair_WX.pair", "pair_YZ.pair.sorted", "pair_XY.pair.sorted", "seq_W.seq", "sortXYZ"])).write_text(r.choice(["", "1,2,3", "0_4_:_0_1\n0_4_:"])); trace.append("(leftover)")
        if r.random() < .3:   # some of the files are gone (a user made room, or copied only part of the folder)
            fs = sorted(x for x in T.find(t, n).rglob("*") if x.is_file()) if T.find(t, n).exists() else []
            res = [x for x in fs if x.name in RESULT]; pick = [x for x in (res if r.random() < .7 else fs) if r.random() < r.choice([.2, .5, .8])]
            for x in pick: x.unlink()
            if pick: trace.append(f"(removed {[x.name for x in pick][:6]})"); c.stat("redone_with_files_removed")
        if r.random() < .2: (T.find(t, n) / "rowsum_9_9_9_9").mkdir(parents=True, exist_ok=True); trace.append("(leftover directory)")
        x = T.run("./driver.sh", t, n, *common.flags(o, p), *(["-h"] if hm else []), "-d"); trace.append(f"driver -d {o} {p}{' -h' if hm else ''} -> {x.returncode}")
        f = fresh(t, n, o, p, "h" if hm else "plain"); c.ok(1, "redo " + "; ".join(trace[-2:])); c.stat("redone_searches")
        if f is None: c.note(f"{t} {n} does not complete from an empty directory"); T.rm(); return
        name = f"{t} n={n} {o} {p} after {trace[-2] if len(trace) > 1 else 'nothing'}"
        if x.returncode: c.bad(f"{name}: redoing fails with status {x.returncode}", "\n".join(trace) + x.stdout[-800:] + x.stderr[-800:])
        else:
            got = find_files(T, t, n)
            for k in sorted(set(f) | {g for g in got if g.startswith("rowsum_")}):
                if k not in got or k not in f or not same(got[k], f[k]): c.bad(f"{name}: after redoing, {k} is {'missing' if k not in got else 'left over' if k not in f else 'different'}", "\n".join(trace)); break
        if h % 25 == 0: c.sample("; ".join(trace)[:500])
        T.rm()
    vf.pmap(one, range(1600 if THOROUGH else 260))
    # an interrupted stage is completed by running it again
    root = vf.scratch_root() / "c16"; st = {}
    def prep(tn):
        t, n = tn; T = vf.Tree(); o, p = vf.rng(f"c16s{tn}").choice(vf.OPTS), vf.rng(f"c16t{tn}").choice(vf.PAIRINGS)
        for k, cmd in enumerate([["./pairs.sh", t, n, *common.flags(o, p)], ["./sortpairs.sh", t, n], ["./join_pairs.sh", t, n], ["./convert_hm.sh", t, n], ["./convert_qhm.sh", t, n]]):
            x = T.run(*cmd)
            if x.returncode: raise vf.Undisturbed(f"{cmd}: {x.stdout[-400:]}{x.stderr[-400:]}")
            d = root / f"{t}{n}{k}"; shutil.copytree(T.dir / "results", d); st[t, n, k] = (d, find_files(T, t, n))
        T.rm()
    tns = [(t, n) for t in lens for n in lens[t][:3]]; vf.pmap(prep, tns)
    def stage(h):
        r = vf.rng(f"c16stage/{h}"); t, n = r.choice(tns); k = r.choice([1, 1, 2, 3, 4]); cmd = [["./sortpairs.sh", t, n], ["./join_pairs.sh", t, n], ["./convert_hm.sh", t, n], ["./convert_qhm.sh", t, n]][k - 1]
        T = vf.Tree(); T.stub("sort", SORTSTUB % dict(log=T.dir / "sort.log")); shutil.copytree(st[t, n, k - 1][0], T.dir / "results", dirs_exist_ok=True); trace = []
        log = T.dir / "fault.log"; how = r.choice(["kill", "die"]); delay = None
        if k == 1 and r.random() < .8: a, b = r.randint(1, 8), r.choice([0, 1, r.randint(1, 3000)]); env = T.env(SORT_AT=a, SORT_BYTES=b, SORT_HOW="group" if how == "kill" else "self"); point = f"{how} in sort {a} after {b} bytes"
        elif r.random() < .7 and k > 1: m = r.choice(["write", "openw", "openr", "read"]); q = r.randint(1, 4); env = T.env(LD_PRELOAD=lib, FAULT_DIR=T.dir / "results", FAULT_LOG=log, FAULT_KIND=m, FAULT_K=q, FAULT_ACTION=how); point = f"{how} at {m} {q}"
        else: env = T.env(); delay = r.random() * .1; point = f"after {delay:.3f} s"
        rc, killed, out = run_killable(T, cmd, env, delay)
        if rc == 0 and not killed: c.stat("points_not_reached"); T.rm(); return
        x = T.run(*cmd); name = f"{' '.join(map(str, cmd))} ({point})"; c.ok(1, "stage " + name); c.stat(f"redone_{cmd[0][2:]}")
        if x.returncode: c.bad(f"{name}: running it again fails with status {x.returncode}", x.stdout[-600:] + x.stderr[-600:])
        else:
            got, f = find_files(T, t, n), st[t, n, k][1]
            for q in sorted(set(f) | set(got)):
                if q not in got or q not in f or not same(got[q], f[q]): c.bad(f"{name}: after running it again, {q} is {'missing' if q not in got else 'left over' if q not in f else 'different'}", point); break
        T.rm()
    vf.pmap(stage, range(1000 if THOROUGH else 200))
    # a join killed (or failing) while it still reads leaves the lists of the earlier run alone
    def reading(h):
        r = vf.rng(f"c16reading/{h}"); t, n = r.choice(tns); T = vf.Tree()
        shutil.copytree(st[t, n, 1][0], T.dir / "results", dirs_exist_ok=True)
        for k in RESULT[:4]:
            if k in st[t, n, 2][1]: shutil.copy2(st[t, n, 2][0] / "pairs" / t / f"find_{n}" / k, T.find(t, n) / k)
        before = {k: v for k, v in find_files(T, t, n).items() if k in RESULT}
        how = r.choice(["kill", "die", "error", "missing"]); log = T.dir / "fault.log"; env = T.env(); m, q = r.choice(["openr", "read"]), r.randint(1, 24)
        if how == "missing":
            f = r.choice(sorted(x for x in T.find(t, n).glob("rowsum_*/*") if x.name.startswith("seq_") or x.name.endswith(".sorted"))); f.unlink(); point = f"without {f.parent.name}/{f.name}"
        else: env = T.env(LD_PRELOAD=lib, FAULT_DIR=T.dir / "results", FAULT_LOG=log, FAULT_KIND=m, FAULT_K=q, FAULT_ACTION=how, FAULT_ERRNO=5); point = f"{how} at {m} {q}"
        rc, _, out = run_killable(T, [T.binary, "join", t, n] if how != "kill" else ["./join_pairs.sh", t, n], env)
        if rc == 0: c.stat("points_not_reached"); T.rm(); return
        c.ok(1, f"reading {t}{n} {point}"); c.stat("joins_stopped_while_reading")
        now = find_files(T, t, n)
        for k, v in before.items():
            if now.get(k) != v: c.bad(f"join {t} {n} {point}: {k} of the earlier run was {'removed' if k not in now else 'changed'} although the join had not read its input", out[-600:]); break
        T.rm()
    vf.pmap(reading, range(500 if THOROUGH else 90))
    return c.finish()
