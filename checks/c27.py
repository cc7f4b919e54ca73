"""C27: options and arguments of the scripts and of the program: what was run is read off the files, the sort calls and the log."""
import os, re, shutil
import vf, common
from vf import THOROUGH, OPTS, PAIRINGS
LENS = dict(ws=[9, 11, 12, 13, 14], qts=[6, 7, 8], wts=[7, 8, 9])
SORT = '''#!/bin/bash
# records the folder this call sorts in
d="${TMPDIR:-/tmp}"; a=("$@")
for ((i=0;i<${#a[@]};i++)); do case "${a[i]}" in -T) d="${a[i+1]}";; -T*) d="${a[i]#-T}";; --temporary-directory=*) d="${a[i]#*=}";; --temporary-directory) d="${a[i+1]}";; esac; done
(flock 9; realpath -m -- "$d" >&9) 9>>%s
exec /usr/bin/sort "$@"
'''
def other(p): return "".join(x for x in "WXYZ" if x not in p)
def tags(f):
    x = f.name.split(".")[0].split("_")[-1]
    return "".join(sorted(x)) if len(x) == 2 and set(x) <= set("WXYZ") else x
def arguments(r, opts):
    """the same options in a random order and grouping; a repeated -p: the last one counts"""
    single = [o for o in opts if len(o) == 1]; r.shuffle(single)
    if r.random() < .2 and single: single.append(r.choice([s for s in single if s != "d"] or ["c" if "c" in single else single[0]]))
    words = []
    while single:
        k = r.randint(1, len(single)) if r.random() < .5 else 1
        words.append(["-" + "".join(single[:k])]); single = single[k:]
    ps = [o[1:] for o in opts if o[0] == "p"]
    for p in ps:
        w = ["-p" + p] if r.random() < .3 else ["-p", p]
        words.insert(r.randint(0, len(words)), w) if len(ps) == 1 else words.append(w)
    if words and r.random() < .3 and ps and len(words[-1][0]) > 1 and words[-1][0][1] != "p":  # -cp WX
        w = words.pop(); i = [k for k, x in enumerate(words) if x[0] == "-p"]
        if i: words[i[-1]] = [w[0] + "p", words[i[-1]][1]]
        else: words.append(w)
    return [x for w in words for x in w]
def main():
    c = vf.Check("C27", rule="one call of a script or command whose files, sort calls, output and status are compared with its options; distinct = distinct argument lists")
    def call(i):
        r = vf.rng(f"c27/{i}"); t = r.choice(["ws", "qts", "wts"]); n = r.choice(LENS[t]); script = r.choice(["driver", "driver", "pairs"])
        opts = [o for o in (["c", "s", "d", "h"] if script == "driver" else ["c", "s", "d"]) if r.random() < .45]
        ps = [r.choice(PAIRINGS) for _ in range(r.choice([0, 1, 1, 1, 2]))]
        pairing = ps[-1] if ps else "WZ"; opt = "correlation" if "c" in opts else "psd"
        args = arguments(r, opts + ["p" + p for p in ps])
        T = vf.Tree(); log = T.dir / "sortdirs"; T.stub("sort", SORT % log); T.stub("cargo", f'#!/bin/sh\necho "$@" >> "{T.dir}/cargo.log"\n'); slurm = T.dir / "slurm tmp".replace(" ", "_"); slurm.mkdir()
        if "d" in opts or r.random() < .3:  # something to discard, of this length; something of another to keep
            for k in (n, n + 1):
                d = T.find(t, k) / "rowsum_0_0_0_0"
                if k == n and "d" not in opts: continue
                d.mkdir(parents=True); (d / "pair_WX.pair.sorted").write_text("stale\n")
        x = T.run(f"./{script}.sh", t, n, *args, env=T.env(SLURM_TMPDIR=slurm)); name = f"./{script}.sh {t} {n} {' '.join(args)}"
        c.ok(1, name); c.stat(script)
        if x.returncode: c.bad(f"{name}: exit status {x.returncode}", x.stdout[-600:] + x.stderr[-600:]); T.rm(); return
        ds = sorted(d for d in T.find(t, n).glob("rowsum_*")); want = common.rowsums_of(t, n)
        if sorted(d.name for d in ds) != sorted("rowsum_" + "_".join(map(str, w)) for w in want): c.bad(f"{name}: pair directories {[d.name for d in ds]}")
        for d in ds:
            got = sorted(tags(f) for f in d.iterdir() if f.name.startswith("pair_")); c.stat("directories")
            if got != sorted(["".join(sorted(pairing)), other(pairing)]): c.bad(f"{name}: pairs {got} in {d.name}, asked for {pairing}"); break
            y = T.run(str(vf.oracle()), "pairdir", t, opt, n, str(d), 0); k = len(c.viol)
            c.probe_out(y, f"{name}: {d.name}")
            # (keys of the other kind, unless the two happen to agree)
        mat = T.find(t, n) / "result.mat"
        if script == "driver":
            c.stat("with_h" if "h" in opts else "without_h")
            if mat.exists() != ("h" in opts): c.bad(f"{name}: result.mat {'written' if mat.exists() else 'missing'}")
            for f in ["result.seq", "result.qseq", "result.qhm", "result.log"] + (["result-qts.seq", "result-qts.qseq"] if t == "wts" else []):
                if not (T.find(t, n) / f).exists(): c.bad(f"{name}: {f} missing")
        else:
            left = [f.name for f in T.find(t, n).iterdir() if f.name.startswith("result") and f.name != "result.log"]
            if left: c.bad(f"{name}: {left} written by the pair generation")
        dirs = set(log.read_text().split("\n")[:-1]) if log.exists() else set()
        if script == "driver":
            s = os.path.realpath(slurm); c.stat("sort_folders", len(dirs))
            if "s" in opts and dirs and dirs != {s}: c.bad(f"{name}: sorts in {sorted(dirs)} instead of the folder of the job")
            if "s" not in opts and s in dirs: c.bad(f"{name}: sorts in the folder of a job without being asked")
        built = (T.dir / "cargo.log").exists(); c.stat("brought_up_to_date" if built else "not_brought_up_to_date")
        if built == ("s" in opts): c.bad(f"{name}: the program is {'' if built else 'not '}rebuilt first")
        if os.listdir(slurm): c.bad(f"{name}: leaves {os.listdir(slurm)} in the folder of the job")
        if (T.find(t, n + 1) / "rowsum_0_0_0_0").exists() is False and T.find(t, n + 1).exists(): c.bad(f"{name}: discards pairs of another length")
        if i % 25 == 0: c.sample(name)
        T.rm()
    vf.pmap(call, range(600 if THOROUGH else 150))
    # usage messages: nothing is run or changed
    scripts = ["driver.sh", "pairs.sh", "sortpairs.sh", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh", "countpairs.sh", "pair_file_cleanup.sh"]
    def usage(j):
        s, a = j; T = vf.Tree(); common.put_result(T, "ws", 5, common.needles()["ws"][5])
        (T.find("ws", 5) / "rowsum_0_0_2_4").mkdir(); (T.find("ws", 5) / "rowsum_0_0_2_4" / "pair_WX.pair").write_text("_:_0_0\n")
        before = common.snapshot(T.dir, skip=("stub", "target")); x = T.run(*([f"./{s}"] if s.endswith(".sh") else ["rust"]), *a); after = common.snapshot(T.dir, skip=("stub", "target"))
        name = f"{s} {' '.join(a)}"; c.ok(1, name); c.stat("usage_messages")
        if x.returncode: c.bad(f"{name}: exit status {x.returncode}", x.stderr[-400:])
        if len(x.stdout.split()) < 5: c.bad(f"{name}: prints no usage message", x.stdout)
        if re.fullmatch(r"\d+", (x.stdout.split("\n")[:-1] or [""])[-1].strip()): c.bad(f"{name}: counts", x.stdout)
        if before != after: c.bad(f"{name}: changed {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))[:3]}")
        T.rm()
    vf.pmap(usage, [(s, a) for s in scripts for a in ([], ["help"], ["-h"], ["--help"])] + [("rust", [])])
    # arguments that are not understood: an error status, and nothing computed (where the right ones would have found their input)
    root = vf.scratch_root() / "c27"
    def prep(j):
        t, n = j; T = vf.Tree(); T.find(t, n).mkdir(parents=True)
        for a in (["rust", "pairs", t, n, "psd", "WZ"], ["./sortpairs.sh", t, n], ["rust", "join", t, n], ["rust", "convert", "hm", t, n], ["rust", "convert", "qhm", t, n]):
            x = T.run(*a)
            if x.returncode: raise vf.Undisturbed(f"{a}: {x.stdout[-400:]}{x.stderr[-400:]}")
        shutil.copytree(T.dir / "results", root / f"{t}{n}"); T.rm()
    vf.pmap(prep, [(t, n) for t in ("ws", "qts", "wts") for n in (3, 4, 5)])
    def commands(t, n, rs, o, p, k): return [["pairs", t, n, o, p], ["pairs_rowsum", t, n, *rs, o, p], ["pair_single", t, n, *rs, o, p, k], ["join", t, n], ["convert", "hm", t, n], ["convert", "qhm", t, n], ["qhm-all", t, n], ["rowsums", t, n], ["amicable", n]]
    def count(j):
        i, how = j; r = vf.rng(f"c27n/{j}"); t = r.choice(["ws", "qts", "wts"]); n = r.choice([3, 4, 5])
        if i == 8: t = "qts"
        cmd = commands(t, n, r.choice(common.rowsums_of(t, n)), r.choice(OPTS), r.choice(PAIRINGS), r.choice([1, 2]))[i]
        a = cmd if how == "right" else cmd[:-1] if how == "less" else cmd + (["1"] if how == "more" else [r.choice(["x", "-c", "WZ", "psd", ""])]) if how != "twice" else cmd + ["1", "2"]
        T = vf.Tree(); shutil.copytree(root / f"{t}{n}", T.dir / "results", dirs_exist_ok=True); before = common.snapshot(T.dir, skip=("stub", "target")); x = T.run("rust", *a); after = common.snapshot(T.dir, skip=("stub", "target"))
        name = " ".join(map(str, a)); c.ok(1, name); c.stat("argument_counts_" + how); new = sorted(k for k in after if before.get(k) != after[k] and after[k][0] == "f")
        if how == "right":
            if x.returncode: c.bad(f"{name}: exit status {x.returncode}", x.stderr[-400:])
        elif x.returncode == 0: c.bad(f"{name}: accepted", x.stdout[-400:])
        elif new: c.bad(f"{name}: rejected, but {new[0]} was written")
        T.rm()
    vf.pmap(count, [(i, h) for i in range(9) for h in ("right", "less", "more", "junk", "twice")] * (4 if THOROUGH else 1))
    def wrong(i):
        r = vf.rng(f"c27w/{i}"); t = r.choice(["ws", "qts", "wts"]); n = r.choice([3, 4, 5]); rs = r.choice(common.rowsums_of(t, n)); o, p = r.choice(OPTS), r.choice(PAIRINGS)
        kind = r.choice(["flag", "flag", "noarg", "nolength", "count", "type", "length", "option", "sum", "part", "part", "command"])
        cmds = commands(t, n, rs, o, p, r.choice([1, 2]))[:8]
        cmd = r.choice(cmds); at = 2 if cmd[0] == "convert" else 1
        if kind == "flag":
            s = r.choice(["driver.sh", "driver.sh", "pairs.sh", "sortpairs.sh"]); good = r.choice([[], ["-s"]] if s == "sortpairs.sh" else [[], ["-c"], ["-p", "WX"], ["-s"]])
            bad = r.choice(["-x", "-z", "-P", "-n", "-cX" if s != "sortpairs.sh" else "-sX"] + (["-h"] if s == "pairs.sh" else []))
            a = [f"./{s}", t, n, *r.choice([[*good, bad], [bad, *good]])]
        elif kind == "noarg": a = [r.choice(["./driver.sh", "./pairs.sh"]), t, n, *r.choice([["-p"], ["-c", "-p"], ["-cp"]])]
        elif kind == "nolength": a = [r.choice(["./driver.sh", "./pairs.sh"]), t]
        elif kind == "count": a = ["rust", *(cmd[:-1] if r.random() < .5 else cmd + ["1"])]
        elif kind == "type": a = ["rust", *cmd[:at], r.choice(["xyz", "WTS", "", "w", "qt", "wst", "williamson"]), *cmd[at + 1:]]
        elif kind == "length": a = ["rust", *cmd[:at + 1], r.choice(["x", "-3", "3.5", "", "five", "0x5"]), *cmd[at + 2:]]
        elif kind == "option": cmd = r.choice(cmds[:3]); a = ["rust", *[r.choice(["PSD", "corr", "", "x"]) if x == o else x for x in cmd]]
        elif kind == "sum": cmd = list(r.choice(cmds[1:3])); cmd[3 + r.randrange(4)] = r.choice(["x", "", "1.5", "--"]); a = ["rust", *cmd]
        elif kind == "command": a = ["rust", r.choice(["foo", "pair", "Pairs", "", "joins", "--help"]), *cmd[1:]]
        else: a = ["rust", "pair_single", t, n, *rs, o, *r.choice([[p, r.choice(["x", "", "-1", "300", "0", "3", "257"])], [r.choice(["XY", "wx", "ZW", ""]), r.choice([1, 2])]])]
        T = vf.Tree(); T.find(t, n).mkdir(parents=True)
        if a[0] == "rust": shutil.copytree(root / f"{t}{n}", T.dir / "results", dirs_exist_ok=True)
        before = common.snapshot(T.dir, skip=("stub", "target"))
        x = T.run(*a); after = common.snapshot(T.dir, skip=("stub", "target")); name = " ".join(map(str, a))
        c.ok(1, name); c.stat("wrong_" + kind)
        new = sorted(k for k in after if before.get(k) != after[k] and after[k][0] == "f")
        if x.returncode == 0: c.bad(f"{name}: accepted", x.stdout[-400:])
        if new: c.bad(f"{name}: rejected, but {new[0]} was written")
        T.rm()
    vf.pmap(wrong, range(500 if THOROUGH else 160))
    # the distributed commands do their own part only
    def part(i):
        r = vf.rng(f"c27p/{i}"); t = r.choice(["ws", "qts", "wts"]); n = r.choice(LENS[t]); rs = r.choice(common.rowsums_of(t, n)); o, p = r.choice(OPTS), r.choice(PAIRINGS); k = r.choice([1, 2])
        T = vf.Tree(scripts=False); T.find(t, n).mkdir(parents=True)
        if r.random() < .5: a = ["pair_single", t, n, *rs, o, p, k]; want = ["".join(sorted(p)) if k == 1 else other(p)]
        else: a = ["pairs_rowsum", t, n, *rs, o, p]; want = sorted(["".join(sorted(p)), other(p)])
        x = T.run("rust", *a); name = " ".join(map(str, a)); c.ok(1, name); c.stat("distributed_parts")
        ds = sorted(T.find(t, n).glob("rowsum_*"))
        got = sorted(tags(f) for d in ds for f in d.iterdir() if f.name.startswith("pair_"))
        if x.returncode: c.bad(f"{name}: exit status {x.returncode}", x.stderr[-300:])
        elif [d.name for d in ds] != ["rowsum_" + "_".join(map(str, rs))] or got != want: c.bad(f"{name}: writes {got} in {[d.name for d in ds]}")
        T.rm()
    vf.pmap(part, range(200 if THOROUGH else 60))
    return c.finish()
