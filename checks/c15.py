"""C15: histories of driver, pair generation and clean-up calls on a results tree, compared call by call with what each
call may change."""
import shutil
import vf, common
from vf import THOROUGH
from c13 import norm
LENS = dict(ws=[1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12], qts=[1, 2, 3, 4, 5], wts=[1, 2, 3, 4, 5, 6])
_fresh = {}
def find_files(T, t, n, log=False):
    d = T.find(t, n)
    return {str(p.relative_to(d)): norm(p) for p in sorted(d.rglob("*")) if p.is_file() and (log or p.name != "result.log")} if d.exists() else {}
def fresh(t, n, o, p, how):
    """the outcome from an empty directory"""
    k = (t, n, o, p, how)
    if k not in _fresh:
        T = vf.Tree(); x = T.run(*(["./driver.sh", t, n, *common.flags(o, p)] + (["-h"] if how == "h" else []) if how != "pairs" else ["./pairs.sh", t, n, *common.flags(o, p)]))
        _fresh[k] = find_files(T, t, n) if x.returncode == 0 else None
        T.rm()
    return _fresh[k]
def same(a, b):
    if a == b: return True
    return isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("mat",) == b[:1] and len(a) == len(b)
def main():
    c = vf.Check("C15", rule="one call of a history compared with what it may change; distinct = (call, arguments, number of pair directories present)")
    def history(h):
        r = vf.rng(f"c15/{h}"); T = vf.Tree(); trace = []
        types = r.sample(["ws", "qts", "wts"], 2) if r.random() < .7 else ["ws", "qts", "wts"]
        lens = {t: r.sample(LENS[t], 3) for t in types}
        if r.random() < .5 and "ws" in types: lens["ws"] = r.choice([[1, 11, 10], [2, 12, 1], [9, 10, 11], [1, 10, 12]])
        def rowsums(t, n): return sorted(p for p in T.find(t, n).glob("rowsum_*") if p.is_dir()) if T.find(t, n).exists() else []
        focus = (types[0], lens[types[0]][0])
        def litter():
            """things that are not the program's: they have to survive"""
            base = T.dir / "results" / "pairs"; t = r.choice(types); n = r.choice(lens[t]); spare = r.choice([20, 21, 100, 111])
            k = r.randrange(8)
            p = [base / t / f"find_{n}" / "notes.txt", base / t / f"find_{n}" / "rowsums.quad", base / t / f"find_{n}x" / "rowsum_1_1_1_1" / "keep.seq",
                 base / t / f"find_{spare}" / "rowsum_1_1_1_1" / "keep.seq", base / (t + "2") / f"find_{n}" / "rowsum_0_0_0_0" / "keep.seq", base / t / "rowsum_0_0_1_1" / "keep.seq",
                 T.dir / "results" / f"find_{n}" / "rowsum_1_1_1_3" / "keep.seq", base / t / f"find_{n}" / "result-old.seq"][k]
            p.parent.mkdir(parents=True, exist_ok=True); p.write_text(f"{r.random()}\n")
            return f"(file {p.relative_to(T.dir)})"
        for step in range(r.randint(5, 9) if not THOROUGH else r.randint(8, 16)):
            t, n = focus if r.random() < .55 else (lambda t: (t, r.choice(lens[t])))(r.choice(types)); o, p = r.choice(vf.OPTS), r.choice(vf.PAIRINGS)
            op = r.choice(["driver", "driver", "driver-d", "driver-d", "pairs", "pairs-d", "sort", "clean", "clean", "range", "litter", "emptydir", "damage"])
            if op == "litter": trace.append(litter()); continue
            have = rowsums(t, n)
            if op == "emptydir":
                if have: continue
                d = T.find(t, n) / r.choice(["rowsum_0_0_0_2", "rowsum_1_1_1_-3", "rowsum_x"]); d.mkdir(parents=True)
                if r.random() < .5: (d / ".hidden").write_text("x")
                trace.append(f"(directory {d.relative_to(T.dir)})"); continue
            if op == "damage":
                fs = [f for d in have for f in d.rglob("*") if f.is_file()]
                if fs:
                    f = r.choice(fs); b = f.read_bytes(); how = r.randrange(3)
                    if how == 0: f.unlink()
                    elif how == 1: f.write_bytes(b[:len(b) // 2])
                    else: (f.parent / "pair_WX.pair.sorted").write_text("garbage\n")
                    trace.append(f"(damaged {f.relative_to(T.dir)})")
                continue
            before = common.snapshot(T.dir, skip=("stub", "target")); fb = {k: v for k, v in before.items()}
            own = f"results/pairs/{t}/find_{n}"
            if op in ("clean", "range"):
                a, b = (n, n) if op == "clean" else r.choice([(n, n + 1), (n - 1, n), (1, n), (n, n), (n, n + 9), (n + 1, n - 1), (9, 11), (1, 12)])
                call = ["./pair_file_cleanup.sh", t, a] + ([b] if op == "range" else [])
                x = T.run(*call); name = " ".join(map(str, call)); trace.append(name)
                gone = [k for k in before if any(k == f"results/pairs/{t}/find_{i}/{q}" or k.startswith(f"results/pairs/{t}/find_{i}/{q}/") for i in range(a, b + 1) for q in [(k.split("/") + [""] * 5)[4]] if q.startswith("rowsum_"))]
                want = {k: v for k, v in before.items() if k not in gone}; after = common.snapshot(T.dir, skip=("stub", "target"))
                c.ok(1, f"{name}/{len(gone) > 0}"); c.stat("cleanups"); c.stat("cleaned_entries", len(gone))
                d = sorted(k for k in set(want) | set(after) if want.get(k) != after.get(k))
                if x.returncode: c.bad(f"{name}: exit status {x.returncode}", "\n".join(trace))
                if d: c.bad(f"{name}: {'removed or changed' if d[0] in want else 'left or created'} {d[0]}" + (f" and {len(d) - 1} more" if len(d) > 1 else ""), "\n".join(trace))
                continue
            if op == "sort":
                if not any(f.name.endswith(".pair") for d in have for f in d.iterdir()): continue
                x = T.run("./sortpairs.sh", t, n); name = f"./sortpairs.sh {t} {n}"; over = True
            else:
                over = op.endswith("-d"); script = "driver" if op.startswith("driver") else "pairs"
                hm = script == "driver" and r.random() < .25
                fl = common.flags(o, p) + (["-h"] if hm else []) 
                if over: fl = fl + ["-d"] if r.random() < .5 else ["-d"] + fl
                x = T.run(f"./{script}.sh", t, n, *fl); name = f"./{script}.sh {t} {n} {' '.join(fl)}"
            trace.append(name); after = common.snapshot(T.dir, skip=("stub", "target"))
            c.ok(1, f"{name}/{len(have) > 0}")
            if op != "sort" and not over and have:
                c.stat("refusals")
                if x.returncode == 0: c.bad(f"{name}: did not refuse although pair directories exist", "\n".join(trace))
                d = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
                if d: c.bad(f"{name}: a refused call changed {d[0]}", "\n".join(trace))
                continue
            # nothing outside the call's own directory changes (a scratch folder for sorting aside)
            other = lambda s: {k: v for k, v in s.items() if not (k == own or k.startswith(own + "/") or k == "tmp" or k.startswith("tmp/") or k in ("results", "results/pairs", f"results/pairs/{t}"))}
            a, b = other(before), other(after); d = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
            if d: c.bad(f"{name}: changed {d[0]}", "\n".join(trace))
            if op == "sort": continue
            c.stat("overwrites" if have else "first_runs")
            # files of ours in the own directory that the call does not write stay
            f = fresh(t, n, o, p, "pairs" if script == "pairs" else "h" if hm else "plain")
            if f is None: c.note(f"{name}: does not complete from an empty directory either"); continue
            if x.returncode: c.bad(f"{name}: exit status {x.returncode}", "\n".join(trace) + "\n" + x.stdout[-500:] + x.stderr[-500:]); continue
            got = find_files(T, t, n)
            for k in sorted(set(f) | {g for g in got if g.startswith("rowsum_")}):
                if k not in got: c.bad(f"{name}: {k} is missing although a run from an empty directory writes it", "\n".join(trace)); break
                if k not in f: c.bad(f"{name}: {k} was left although a run from an empty directory does not write it", "\n".join(trace)); break
                if not same(got[k], f[k]): c.bad(f"{name}: {k} is not as from an empty directory", "\n".join(trace)); break
            keep = [k for k in before if k.startswith(own + "/") and before[k][0] == "f" and not k[len(own) + 1:].startswith("rowsum_") and k[len(own) + 1:] not in f and not k.endswith("/result.log")]
            for k in keep:
                if after.get(k) != before[k]: c.bad(f"{name}: {k} was removed or changed", "\n".join(trace)); break
            c.stat("own_files_compared", len(f))
        T.rm(); c.stat("histories")
        if h % 20 == 0: c.sample("; ".join(trace)[:600])
    vf.pmap(history, range(400 if THOROUGH else 110))
    return c.finish()
