"""C22: histories of computations (complete, partial, staged, distributed, repeated, cleaned up); the summary tool and the pair
counting script are compared with what the files held."""
import os, re
import vf, common
from vf import THOROUGH
LENS = dict(ws=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16], qts=[1, 2, 3, 4, 5, 6, 7, 8, 9], wts=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11])
def nlines(p): return p.read_bytes().count(b"\n") if p.exists() else None
def pair_lines(T, t, n): return sum(nlines(f) for f in T.find(t, n).glob("rowsum_*/*.pair*"))
def sorted_lines(T, t, n): return sum(nlines(f) for f in T.find(t, n).glob("rowsum_*/*.sorted"))
def main():
    c = vf.Check("C22", rule="one number printed by the summary tool, the counting script or a log compared with the files; distinct = (quantity, type, n, history of that length, value)")
    def history(h):
        r = vf.rng(f"c22/{h}"); T = vf.Tree(); trace = []; model = {}
        types = r.choice([["ws"], ["qts"], ["wts"], ["wts"], ["qts"], ["wts", "qts"], ["ws", "qts", "wts"]])
        def m(t, n): return model.setdefault((t, n), dict(log=False, pairs=None, q=-1, w=-1, ops=[]))
        def run(*cmd):
            x = T.run(*cmd); trace.append(" ".join(map(str, cmd)) + f"  -> {x.returncode}"); return x
        def joined(t, n, M):
            if t in ("qts", "wts"): M["q"] = nlines(T.find(t, n) / ("result.seq" if t == "qts" else "result-qts.seq"))
            if t == "wts": M["w"] = nlines(T.find(t, n) / "result.seq")
        def fail(x, what): c.bad(f"{what}: exit status {x.returncode}", "\n".join(trace) + x.stdout[-500:] + x.stderr[-500:])
        def make(t, n):
            M = m(t, n); o, p = r.choice(vf.OPTS), r.choice(vf.PAIRINGS); fl = common.flags(o, p)
            how = r.choice(["driver", "driver", "driver-h", "staged", "staged-h", "pairs", "sorted", "distributed", "nojoin"])
            M["ops"].append(how)
            if how.startswith("driver"):
                x = run("./driver.sh", t, n, *fl, "-d", *(["-h"] if how.endswith("h") else []))
                if x.returncode: fail(x, f"driver {t} {n}"); return
                M.update(log=True, pairs=pair_lines(T, t, n)); joined(t, n, M)
            elif how == "distributed":
                # pair files made by the commands of a distributed job; the log starts with the sorting stage
                x = run("./pair_file_cleanup.sh", t, n)
                if (T.find(t, n) / "result.log").exists(): (T.find(t, n) / "result.log").unlink()
                T.find(t, n).mkdir(parents=True, exist_ok=True)
                for rs in common.rowsums_of(t, n):
                    x = run("rust", "pairs_rowsum", t, n, *rs, o, p)
                    if x.returncode: fail(x, f"pairs_rowsum {t} {n}"); return
                x = run("./sortpairs.sh", t, n)
                if x.returncode: fail(x, f"sort {t} {n}"); return
                x = run("./join_pairs.sh", t, n)
                if x.returncode: fail(x, f"join {t} {n}"); return
                M.update(log=True, pairs="disk"); joined(t, n, M)
            else:
                x = run("./pairs.sh", t, n, *fl, "-d")
                if x.returncode: fail(x, f"pairs {t} {n}"); return
                M.update(log=True, pairs=pair_lines(T, t, n), q=-1, w=-1)
                g = re.findall(r"Generated (\d+) pairs for pairing", T.text(t, n, "result.log") or "")
                if g and sum(map(int, g)) != M["pairs"]: c.bad(f"{t} n={n}: the pair generation reports {sum(map(int, g))} pairs; its files hold {M['pairs']}", "\n".join(trace))
                if how == "pairs": return
                x = run("./sortpairs.sh", t, n)
                if x.returncode: fail(x, f"sort {t} {n}"); return
                if how in ("sorted", "nojoin"): return
                x = run("./join_pairs.sh", t, n)
                if x.returncode: fail(x, f"join {t} {n}"); return
                joined(t, n, M)
                if how.endswith("h"):
                    x = run("./convert_hm.sh", t, n)
                    if x.returncode: fail(x, f"convert hm {t} {n}"); return
                if r.random() < .3: run("./join_pairs.sh", t, n)
                if r.random() < .3: run("./convert_qhm.sh", t, n)
        def truth(t, n):
            M = model.get((t, n)); d = T.find(t, n)
            if not M or not M["log"]: return dict(W=-1, Q=-1, M=-1, P=-1)
            mat = nlines(d / "result.mat")
            return dict(W=M["w"], Q=M["q"], M=-1 if mat is None else mat, P=sorted_lines(T, t, n) if M["pairs"] == "disk" else M["pairs"])
        def collect():
            t = r.choice(types); L = LENS[t]; a = r.choice([1, 1, r.choice(L)]); b = r.choice([max(L), max(L) + 2, r.choice(L)])
            if r.random() < .7 and a > b: a, b = b, a
            fmt = r.choice("tl"); verbose = r.random() < .4
            cmd = ["./collect_results.py", a, b, t, fmt] + (["verbose"] if verbose else [])
            before = common.snapshot(T.dir, skip=("stub", "target")); x = run(*cmd); name = " ".join(map(str, cmd)); c.stat("summaries")
            if x.returncode: c.bad(f"{name}: exit status {x.returncode}", "\n".join(trace) + "\n" + x.stderr[-1500:]); return
            if common.snapshot(T.dir, skip=("stub", "target")) != before: c.bad(f"{name}: changed a file", "\n".join(trace))
            want = {n: truth(t, n) for n in range(a, b + 1)}; out = x.stdout.split("\n")
            # the table: header then one row per length, in order
            if fmt == "t":
                hs = [i for i, l in enumerate(out) if l.split()[:1] == ["n"]]
                rows = [l.split() for l in out[hs[-1] + 1:] if l.strip()] if hs else None
                head = out[hs[-1]] if hs else ""
                cols = [w for w in ("W_{equ}", "Q_{equ}", "M_{equ}", "Pairs") if w in head]
                order = re.findall(r"W_\{equ\}|Q_\{equ\}|M_\{equ\}|QT Equ Time \(s\)|HM Equ Time \(s\)|Time \(s\)|Pairs|Disk usage \(MB\)", head)
            else:
                hs = [i for i, l in enumerate(out) if l.startswith("$n$")]
                rows = [[f.strip() for f in l.replace("\\\\", "").split("&")] for l in out[hs[-1] + 1:] if "&" in l] if hs else None
                head = out[hs[-1]] if hs else ""
                order = [re.sub(r"^\$([WQM]).*$", r"\1_{equ}", f.strip().replace("\\\\", "").strip()) for f in head.split("&")][1:]
            if rows is None: c.bad(f"{name}: no table", "\n".join(trace) + "\n" + x.stdout); return
            if [f[0] for f in rows] != [str(n) for n in range(a, b + 1)]: c.bad(f"{name}: rows for {[f[0] for f in rows]}", "\n".join(trace) + "\n" + x.stdout); return
            if ("W_{equ}" in order) != (t == "wts") or not {"Q_{equ}", "M_{equ}", "Pairs"} <= set(order): c.bad(f"{name}: header {head}", x.stdout); return
            for f in rows:
                n = int(f[0]); w = want[n]
                if len(f) != len(order) + 1: c.bad(f"{name}: the row of n={n} has {len(f)} fields instead of {len(order) + 1}", "\n".join(trace) + "\n" + x.stdout); continue
                for k, col in (("W", "W_{equ}"), ("Q", "Q_{equ}"), ("M", "M_{equ}"), ("P", "Pairs")):
                    if col not in order: continue
                    v = f[1 + order.index(col)]; ops = "/".join(model[t, n]["ops"]) if (t, n) in model else "none"
                    c.ok(1, f"{k} {t} {n} {ops} {v}"); c.stat("values_" + k); c.stat("values_not_computed" if w[k] == -1 else "values_computed")
                    if v != str(w[k]): c.bad(f"{name}: n={n} {col} is {v}; the files hold {w[k]}", "\n".join(trace) + "\n" + x.stdout)
                for col in order:   # nothing at all is known of a length without a log
                    if not model.get((t, n), {}).get("log"):
                        v = f[1 + order.index(col)]; c.ok(1); c.stat("values_without_log")
                        if float(v) != -1: c.bad(f"{name}: n={n} {col} is {v} although there are no results", "\n".join(trace) + "\n" + x.stdout)
                if model.get((t, n), {}).get("log"):
                    lg = T.text(t, n, "result.log") or ""
                    for col, known in (("QT Equ Time (s)", "reducing to equivalence" in lg), ("HM Equ Time (s)", "Hadamard equivalence took" in lg)):
                        if col not in order: continue
                        v = float(f[1 + order.index(col)]); c.ok(1); c.stat("times_known" if known else "times_not_known")
                        if known != (v >= 0) or not known and v != -1: c.bad(f"{name}: n={n} {col} is {v} although that stage was {'' if known else 'not '}run", "\n".join(trace) + "\n" + x.stdout)
            if verbose:
                # each block belongs to its length; totals cover the lengths with results
                blocks = dict((int(n), b) for n, b in re.findall(r"=+ Length (\d+) =+\n(.*?)\n\n", x.stdout, re.S))
                have = [n for n in want if model.get((t, n), {}).get("log")]
                if sorted(blocks) != have: c.bad(f"{name}: verbose sections for {sorted(blocks)} instead of {have}", "\n".join(trace) + "\n" + x.stdout)
                for n, b in blocks.items():
                    if n not in want: continue
                    for k, pat in (("Q", r"QTS after sequence equivalence: (-?\d+)"), ("M", r"QTS after Hadamard equivalence: (-?\d+)"), ("P", r"Total pairs generated: (-?\d+)")):
                        g = re.search(pat, b); c.ok(1); c.stat("verbose_values")
                        if not g or int(g.group(1)) != want[n][k]: c.bad(f"{name}: verbose section of n={n}: {k} is {g and g.group(1)}; the files hold {want[n][k]}", "\n".join(trace) + "\n" + x.stdout)
                for k, pat in [("Q", r"A total of (-?\d+) sets of QT sequences found up to QT"), ("M", r"A total of (-?\d+) sets of QT sequences found up to Hadamard")] + ([("W", r"A total of (-?\d+) sets of QT sequences found up to Williamson-type")] if t == "wts" else []):
                    g = re.search(pat, x.stdout); tot = sum(w[k] for w in want.values() if w[k] >= 0); c.ok(1); c.stat("totals")
                    if not g or int(g.group(1)) != tot: c.bad(f"{name}: total {k} is {g and g.group(1)}; the files hold {tot}", "\n".join(trace) + "\n" + x.stdout)
        def count():
            t = r.choice(types); n = r.choice([k for k in model if k[0] == t] or [(t, r.choice(LENS[t]))])[1]
            if any(T.find(t, n).glob("rowsum_*/*.pair")): return     # not sorted yet: the script counts sorted files
            x = run("./countpairs.sh", t, n); c.ok(1, f"count {t} {n} {sorted_lines(T, t, n)}"); c.stat("pair_counts")
            if x.returncode or x.stdout.strip() != str(sorted_lines(T, t, n)): c.bad(f"countpairs {t} {n}: prints {x.stdout.strip()!r}; the files hold {sorted_lines(T, t, n)}", "\n".join(trace) + x.stderr)
        for step in range(r.randint(5, 9) if not THOROUGH else r.randint(10, 20)):
            op = r.choice(["make", "make", "make", "make", "clean", "remake", "collect", "count"])
            if op == "make": t = r.choice(types); make(t, r.choice(LENS[t]))
            elif op == "remake" and model: make(*r.choice(sorted(model)))
            elif op == "clean" and model:
                t, n = r.choice(sorted(model)); run("./pair_file_cleanup.sh", t, n, *r.choice([[], [n + 2]]))
                for (u, k), M in model.items():
                    if u == t and k == n: M["ops"].append("clean")
            elif op == "collect": collect()
            elif op == "count": count()
        for _ in range(3): collect()
        for _ in range(2): count()
        # what the logs say about finished stages
        for (t, n), M in model.items():
            log = T.text(t, n, "result.log") or ""
            if M["log"] and (M["ops"] + [""])[0].startswith("driver") and len(M["ops"]) == 1:
                g = re.search(r"(\d+) matrices were found after converting", log); mat = nlines(T.find(t, n) / "result.mat")
                if mat is not None and (not g or int(g.group(1)) != mat): c.bad(f"driver {t} {n} -h: reports {g and g.group(1)} matrices; the file holds {mat}", "\n".join(trace))
                g = re.search(rf"Found (\d+) {t} after reducing to equivalence", log); q = nlines(T.find(t, n) / "result.seq"); c.ok(1); c.stat("log_values")
                if not g or int(g.group(1)) != q: c.bad(f"driver {t} {n}: reports {g and g.group(1)} sequences; the file holds {q}", "\n".join(trace))
                g = re.search(r"Generated (\d+) total pairs", log)
                if not g or int(g.group(1)) != M["pairs"]: c.bad(f"driver {t} {n}: reports {g and g.group(1)} pairs; the files hold {M['pairs']}", "\n".join(trace))
        T.rm(); c.stat("histories")
        if h % 10 == 0: c.sample("; ".join(trace)[:500])
    def slow(h):
        """stages that take a known time, and what the log says about them"""
        r = vf.rng(f"c22/slow/{h}"); T = vf.Tree(); t = r.choice(["wts", "qts", "ws"]); n = r.randint(3, 7); d = {k: round(r.uniform(.2, 1.6), 2) if r.random() < .7 else 0 for k in ("pairs", "join", "hm", "qhm", "sort")}
        prog = T.dir / "target" / "release" / "rust"; prog.unlink()
        vf.put_exec(prog, '#!/bin/bash\nk=$1; [ "$1" = convert ] && k=$2\ncase $k in\n' + "".join(f'{k}) sleep {v};;\n' for k, v in d.items()) + f'esac\nexec "{T.binary}" "$@"\n')
        T.stub("sort", f'#!/bin/bash\nif mkdir "{T.dir}/once" 2>/dev/null; then sleep {d["sort"]}; fi\nexec /usr/bin/sort "$@"\n')
        import time; t0 = time.time(); fl = common.flags(r.choice(vf.OPTS), r.choice(vf.PAIRINGS))
        for cmd in [["./driver.sh", t, n, "-h", *fl]] if h % 2 else [["./pairs.sh", t, n, *fl], ["./sortpairs.sh", t, n], ["./join_pairs.sh", t, n], ["./convert_hm.sh", t, n], ["./convert_qhm.sh", t, n]]:
            x = T.run(*cmd)
            if x.returncode: c.bad(f"{cmd[0]} {t} {n}: exit status {x.returncode}", x.stderr[-500:]); T.rm(); return
        wall = time.time() - t0
        log = T.text(t, n, "result.log") or ""
        for what, pat, low in (("Hadamard conversion", r"up to Hadamard equivalence took (-?\d*\.?\d+) sec", d["hm"]), ("sorting", r"Total time to sort: (-?\d*\.?\d+) sec", d["sort"]), ("whole search", r"Total execution time was (-?\d*\.?\d+) sec", sum(d.values())), ("QHM conversion", r"PQS to QHM took (-?\d*\.?\d+) sec", d["qhm"]),
                                   ("pair generation", r"Generating the .pair files took (-?\d*\.?\d+) sec", d["pairs"]), ("join", r"Joining the files together took (-?\d*\.?\d+) sec", d["join"])):
            for v in re.findall(pat, log):
                c.ok(1, f"elapsed {what} {v}"); c.stat("elapsed_times")
                slack = .02 if "." in v else 1
                if not low - slack <= float(v) <= wall + slack: c.bad(f"{'driver' if h % 2 else 'stage scripts'} {t} {n}: the log says the {what} took {v} s; it took at least {low} s of {wall:.2f} s", log[-1500:])
        T.rm()
    vf.pmap(slow, range(60 if THOROUGH else 14))
    def large(h):
        """the records of a finished computation with the magnitudes of long ones: the same lines, larger numbers"""
        r = vf.rng(f"c22/large/{h}"); T = vf.Tree(); t = r.choice(["wts", "qts", "ws"]); ns = sorted(r.sample(range(3, 8), 3)); want = {}
        # places of numbers in the log, found by the values that the files of this run hold
        for n in ns:
            x = T.run("./driver.sh", t, n, "-h", *common.flags(r.choice(vf.OPTS), r.choice(vf.PAIRINGS)))
            if x.returncode: c.bad(f"driver {t} {n}: exit status {x.returncode}", x.stderr[-500:]); T.rm(); return
            d = T.find(t, n); log = d / "result.log"; text = log.read_text(); w = want[n] = {}
            big = lambda: r.choice([r.randint(100, 999), r.randint(1000, 99999), r.randint(10 ** 6, 10 ** 9), r.randint(10 ** 10, 10 ** 13), 1000, 10 ** 6, 0])
            for k, kind in (("Q", "qts"), ("W", "wts")):
                v = big(); text, m = re.subn(rf"Found \d+ {kind} after reducing to equivalence", f"Found {v} {kind} after reducing to equivalence", text)
                if m == 1: w[k] = v
            v = big(); text, m = re.subn(r"Generated \d+ total pairs", f"Generated {v} total pairs", text)
            if m == 1: w["P"] = v
            # times of the stages: those that add up, and those of the two reductions
            parts = []
            def tm(m): parts.append(r.choice([r.uniform(0, 10), r.uniform(10, 100), r.uniform(100, 1e5), r.uniform(1e5, 9e6)])); return f": {parts[-1]:.2f} seconds"
            text2 = re.sub(r": \d+\.\d\d seconds", tm, text)
            if len(parts) == 3: text = text2; w["Time (s)"] = sum(round(x, 2) for x in parts)
            for col, pat in (("QT Equ Time (s)", "Reducing to equivalence took"), ("HM Equ Time (s)", "Converting to matrices up to Hadamard equivalence took")):
                v = round(r.choice([r.uniform(0, 10), r.uniform(10, 1e3), r.uniform(1e3, 9e6)]), 2); text, m = re.subn(rf"{pat} \d+\.\d+ seconds", f"{pat} {v:.2f} seconds", text)
                if m >= 1 and (t != "wts" or col[0] == "H"): w[col] = v
            log.write_text(text)
            mat = (d / "result.mat").read_text().splitlines(True); w["M"] = v = r.choice([99, 100, 101, 1000, 1234]); (d / "result.mat").write_text("".join((mat or ["[+]\n"])[0] for _ in range(v)))
            for f in r.sample(sorted(d.glob("rowsum_*/*")), 2) if len(list(d.glob("rowsum_*/*"))) > 1 else []:
                with open(f, "ab") as fh: fh.truncate(r.randint(1, 300) * 1024 * 1024 // 7)
            w["D"] = sum(f.stat().st_size for f in d.glob("rowsum_*/*")) / 1024 ** 2
        for fmt in "tl":
            x = T.run("./collect_results.py", ns[0], ns[-1], t, fmt); name = f"summary of large records {t} {ns} {fmt}"
            if x.returncode: c.bad(f"{name}: exit status {x.returncode}", x.stderr[-800:]); continue
            out = x.stdout.split("\n")
            if fmt == "t":
                hs = [i for i, l in enumerate(out) if l.split()[:1] == ["n"]]; head = out[hs[-1]] if hs else ""
                order = re.findall(r"W_\{equ\}|Q_\{equ\}|M_\{equ\}|QT Equ Time \(s\)|HM Equ Time \(s\)|Time \(s\)|Pairs|Disk usage \(MB\)", head)
                rows = [l.split() for l in out[hs[-1] + 1:] if l.strip()] if hs else []
            else:
                hs = [i for i, l in enumerate(out) if l.startswith("$n$")]; head = out[hs[-1]] if hs else ""
                order = [re.sub(r"^\$([WQM]).*$", r"\1_{equ}", f.strip().replace("\\\\", "").strip()) for f in head.split("&")][1:]
                rows = [[f.strip() for f in l.replace("\\\\", "").split("&")] for l in out[hs[-1] + 1:] if "&" in l] if hs else []
            if [f[0] for f in rows] != [str(n) for n in range(ns[0], ns[-1] + 1)]: c.bad(f"{name}: rows for {[f[0] for f in rows]}", x.stdout); continue
            if any(len(f) != len(order) + 1 for f in rows): c.bad(f"{name}: rows of {sorted(set(map(len, rows)))} fields under {len(order) + 1} headings", x.stdout); continue
            for f in rows:
                w = want.get(int(f[0]), dict(W=-1, Q=-1, M=-1, P=-1))
                for k, cols in (("W", ["W_{equ}"]), ("Q", ["Q_{equ}"]), ("M", ["M_{equ}"]), ("P", ["Pairs"])):
                    if k not in w or cols[0] not in order: continue
                    v = f[1 + order.index(cols[0])]; c.ok(1, f"{k} large {v}"); c.stat("large_values")
                    if v != str(w[k]): c.bad(f"{name}: n={f[0]} {cols[0]} is {v}; the records hold {w[k]}", x.stdout)
                for col in ("Time (s)", "QT Equ Time (s)", "HM Equ Time (s)"):
                    if col in order and col in w:
                        v = f[1 + order.index(col)]; c.ok(1, f"time {v}"); c.stat("time_values")
                        if abs(float(v) - w[col]) > 0.011: c.bad(f"{name}: n={f[0]} {col} is {v}; the log adds up to {w[col]:.2f}", x.stdout)
                for col in ("Disk usage (MB)", "Space"):
                    if col in order and "D" in w:
                        v = f[1 + order.index(col)]; c.ok(1, f"disk {v}"); c.stat("disk_values")
                        if abs(float(v) - w["D"]) > 0.051: c.bad(f"{name}: n={f[0]} {col} is {v}; the files hold {w['D']:.3f}", x.stdout)
        T.rm()
    vf.pmap(large, range(40 if THOROUGH else 12))
    vf.pmap(history, range(300 if THOROUGH else 100))
    return c.finish()
