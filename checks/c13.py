"""C13: storage faults.  Every file operation of every command is failed, cut or interrupted in turn (a preloaded
fault injector, file-size limits, full devices, damaged inputs); a command that then still exits with status 0 must
have left exactly the files of the undisturbed run."""
import os, re, resource, shutil, signal
import vf, common
from vf import THOROUGH
SUB = "results/pairs"
def norm(path):
    """content of an output file up to the order the program leaves open"""
    b = path.read_bytes(); nm = path.name; t = b.decode("latin-1")
    if nm.endswith(".qseq"): return tuple(sorted(t.split("]\n]")))
    if nm == "qhm_all.mat": return tuple(sorted(x.strip() for x in t.split("\n\n")))
    if nm in ("result.seq", "result-qts.seq"): return tuple(sorted(t.split("\n")))
    if nm == "result.mat": return ("mat",) + tuple(sorted(t.split("\n")))
    return t
def log_lines(path):
    """the run's log without the measured times, in no particular order"""
    t = re.sub(r"\d+\.\d+(e-?\d+)?|\d+(?= ?(seconds|s\b|ms\b))", "#", path.read_bytes().decode("latin-1"))
    return ("log",) + tuple(sorted(x.strip() for x in t.split("\n") if x.strip() and x + "\n" != PRIOR))
def files(T, t, n, log=False):
    """log: also the log that the scripts of the stages keep"""
    d = T.find(t, n)
    return {str(p.relative_to(d)): log_lines(p) if p.name == "result.log" else norm(p) for p in sorted(d.rglob("*")) if p.is_file() and (log or p.name != "result.log")}
def differ(a, b):
    """the first file of a that is not as in b (None: all are)"""
    for k in sorted(set(a) | set(b)):
        if k not in b: return f"{k} missing"
        if k not in a: continue   # an extra scratch file is no lost output
        if a[k] == b[k]: continue
        if isinstance(a[k], tuple) and a[k][0] == "mat":
            # the representative of a class is free: compare by class fingerprints
            try:
                fp = lambda x: sorted(l.split()[:2] + l.split()[3:4] for l in vf.orc(["hm"], [y for y in x[1:] if y]))
                if isinstance(b[k], tuple) and len(a[k]) == len(b[k]) and fp(a[k]) == fp(b[k]): continue
            except Exception: pass
        return f"{k} differs ({len(str(a[k]))} -> {len(str(b[k]))} characters)"
    return None
PRIOR = "an earlier line\n"
# every word of the log passes tee, which runs out of space at its K-th call (and, if sticky, ever after)
TEE = '''#!/bin/sh
k=$(( $(cat "%(d)s/tee.n" 2>/dev/null || echo 0) + 1 )); echo $k > "%(d)s/tee.n"
if [ $k -eq %(k)d ] || { [ %(s)d = 1 ] && [ $k -gt %(k)d ] && [ %(k)d -gt 0 ]; }; then
	cat > "%(d)s/tee.in"; cat "%(d)s/tee.in"; a=0
	for x in "$@"; do if [ "$x" = -a ]; then a=1; fi; done
	for x in "$@"; do
		if [ "$x" = -a ]; then continue; fi
		if [ $a = 0 ]; then : > "$x"; fi
		head -c $(( $(wc -c < "%(d)s/tee.in") * %(p)d / 100 )) "%(d)s/tee.in" >> "$x"
		echo "tee: $x: No space left on device" >&2
	done
	exit 1
fi
exec /usr/bin/tee "$@"
'''
APPENDING = ("sortpairs", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh")
class Case:
    def __init__(s, name, t, n, cmd, state): s.name, s.t, s.n, s.cmd, s.state = name, t, n, cmd, state
    def tree(s):
        T = vf.Tree(); shutil.copytree(s.state, T.dir / "results", dirs_exist_ok=True) if s.state else T.find(s.t, s.n).mkdir(parents=True)
        return T
def fsize(limit, ignore):
    def f():
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN if ignore else signal.SIG_DFL)
    return f
def main():
    c = vf.Check("C13", level="fault_enumeration", rule="one run of a command under one fault; distinct = (command, type, length, kind of fault, position) at which the fault was actually hit")
    r = vf.rng("c13"); lib = vf.faultlib()
    root = vf.scratch_root() / "states"; cases = []
    spec = [("ws", 9), ("qts", 5), ("wts", 6), ("ws", 6), ("qts", 4), ("wts", 5)] + ([("ws", 12), ("qts", 8), ("wts", 9), ("ws", 13), ("qts", 7), ("wts", 8)] if THOROUGH else [("ws", 11), ("qts", 6), ("wts", 8)])
    def prepare(sp):
        t, n = sp; T = vf.Tree(); T.find(t, n).mkdir(parents=True); o, p = vf.rng(f"c13/{sp}").choice(vf.OPTS), vf.rng(f"c13p/{sp}").choice(vf.PAIRINGS); out = []
        def snap(k): d = root / f"{t}{n}-{k}"; shutil.copytree(T.dir / "results", d); return d
        s0 = None
        def step(*cmd):
            x = T.run(*cmd)
            if x.returncode: raise vf.Undisturbed(f"{cmd}: status {x.returncode}: {x.stderr[-500:]}")
        step("rust", "rowsums", t, n)
        quads = [l.split() for l in T.text(t, n, "rowsums.quad").split("\n") if l]
        step("rust", "pairs", t, n, o, p); s1 = snap(1)
        step("./sortpairs.sh", t, n); s2 = snap(2)
        step("rust", "join", t, n); s3 = snap(3)
        q = vf.rng(f"c13q/{sp}").choice(quads)
        out = [Case("rowsums", t, n, ["rust", "rowsums", t, n], s0), Case("pairs", t, n, ["rust", "pairs", t, n, o, p], s0),
               Case("pairs_rowsum", t, n, ["rust", "pairs_rowsum", t, n, *q, o, p], s0), Case("create", t, n, ["rust", "create", t, n, *q, p], s0),
               Case("pair_single", t, n, ["rust", "pair_single", t, n, *q, o, p, 1 + n % 2], s0), Case("sortpairs", t, n, ["./sortpairs.sh", t, n], s1),
               Case("join", t, n, ["rust", "join", t, n], s2), Case("hm", t, n, ["rust", "convert", "hm", t, n], s3), Case("qhm", t, n, ["rust", "convert", "qhm", t, n], s3),
               Case("qhm-all", t, n, ["rust", "qhm-all", t, n], s3), Case("driver", t, n, ["./driver.sh", t, n, *common.flags(o, p), "-h"], s0), Case("pairs.sh", t, n, ["./pairs.sh", t, n, *common.flags(o, p)], s0),
               Case("join_pairs.sh", t, n, ["./join_pairs.sh", t, n], s2), Case("convert_hm.sh", t, n, ["./convert_hm.sh", t, n], s3), Case("convert_qhm.sh", t, n, ["./convert_qhm.sh", t, n], s3)]
        T.rm(); return out
    for x in vf.pmap(prepare, spec): cases += x
    def probe(cs):
        """undisturbed run: outputs and the number of operations of each kind"""
        T = cs.tree(); log = T.dir / "fault.log"
        T.stub("tee", TEE % dict(d=T.dir, k=0, s=0, p=0)); lg = T.find(cs.t, cs.n) / "result.log"; b0 = lg.stat().st_size if lg.exists() else 0
        x = T.run(*cs.cmd, env=T.env(LD_PRELOAD=lib, FAULT_DIR=T.dir / "results", FAULT_LOG=log) if cs.cmd[0] == "rust" else None)
        if x.returncode: raise vf.Undisturbed(f"{cs.cmd}: status {x.returncode}: {x.stderr[-500:]}")
        cs.clean = files(T, cs.t, cs.n, cs.cmd[0] != "rust"); cs.counts = {}
        if log.exists():
            for l in log.read_text().split("\n"):
                f = l.split()
                if f and f[0] == "COUNT": cs.counts[f[1]] = max(cs.counts.get(f[1], 0), int(f[2]))
        cs.tees = int((T.dir / "tee.n").read_text()) if (T.dir / "tee.n").exists() else 0
        cs.added = lg.stat().st_size - b0 if lg.exists() else 0
        before = cs.tree(); cs.inputs = files(before, cs.t, cs.n); before.rm()
        cs.size = max([len(p.read_bytes()) for p in T.find(cs.t, cs.n).rglob("*") if p.is_file() and p.name != "result.log"] + [1])
        T.rm(); return cs
    cases = vf.pmap(probe, cases)
    per = 12 if THOROUGH else 3
    jobs = []
    for cs in cases:
        rr = vf.rng(f"c13/{cs.name}/{cs.t}/{cs.n}")
        def ks(n): return sorted(set([1, n] + [rr.randint(1, n) for _ in range(per)])) if n else []
        if cs.cmd[0] == "rust":
            N = cs.counts.get
            for k in ks(N("write", 0)):
                for a, e, s in [("error", 28, 1), ("error", 5, 0), ("short", 0, 0), ("cut", 28, 0), ("eintr", 0, 0)]: jobs.append((cs, "write", k, a, e, s))
            for k in ks(N("openw", 0)): jobs.append((cs, "openw", k, "error", rr.choice([13, 28, 24]), rr.randint(0, 1)))
            for k in ks(N("openr", 0)): jobs.append((cs, "openr", k, "error", rr.choice([13, 5, 24]), 0))
            for k in ks(N("read", 0)):
                for a, e in [("error", 5), ("short", 0), ("eintr", 0)]: jobs.append((cs, "read", k, a, e, 0))
            for k in ks(N("mkdir", 0)): jobs.append((cs, "mkdir", k, "error", rr.choice([13, 28]), rr.randint(0, 1)))
            jobs.append((cs, "stdout", 0, "full", 0, 0))
        else:
            for _ in range(per): jobs.append((cs, "write", rr.randint(1, 6), rr.choice(["error", "cut"]), 28, 1))
            for k in range(1, cs.tees + 1) if cs.tees < 20 or THOROUGH else ks(cs.tees) + list(range(cs.tees - 8, cs.tees)): jobs.append((cs, "tee", k, rr.choice(["full", "part"]), 0, rr.randint(0, 1)))
            if cs.name in APPENDING:
                for l in sorted(set([0, cs.added - 1] + [rr.randrange(cs.added) for _ in range(per)])): jobs.append((cs, "log", l, rr.choice(["kill", "efbig"]), 0, 0))
        for l in sorted(set([0, 1, cs.size - 1, cs.size // 2] + [rr.randrange(cs.size) for _ in range(per)])):
            if l >= 0: jobs.append((cs, "fsize", l, rr.choice(["kill", "efbig"]), 0, 0))
        # damaged inputs
        if cs.name in ("join", "hm", "qhm", "qhm-all", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh"):
            ins = [k for k in cs.inputs if k.endswith(".pair.sorted") or k.split("/")[-1].startswith("seq_")] if "join" in cs.name else ["result-qts.seq" if cs.t == "wts" and "hm" in cs.name and "qhm" not in cs.name else "result.seq"]
            for f in rr.sample(ins, min(len(ins), per + 2)):
                acts = ["missing", "directory", "undecodable"] + (["foreign"] if f.endswith(".seq") else ["noindex"])
                for a in acts: jobs.append((cs, "input:" + f, rr.randrange(1 << 30), a, 0, 0))
    def go(j):
        cs, kind, k, act, e, sticky = j; T = cs.tree(); log = T.dir / "fault.log"; fired = True; x = None
        if kind in ("write", "read", "openw", "openr", "mkdir"):
            x = T.run(*cs.cmd, env=T.env(LD_PRELOAD=lib, FAULT_DIR=T.dir / "results", FAULT_LOG=log, FAULT_KIND=kind, FAULT_K=k, FAULT_ACTION=act, FAULT_ERRNO=e, FAULT_STICKY=sticky))
            fired = log.exists() and "FIRED" in log.read_text()
        elif kind == "stdout":
            x = T.run("sh", "-c", '"$@" > /dev/full', "sh", *[T.binary if y == "rust" else y for y in cs.cmd])
        elif kind == "tee":
            T.stub("tee", TEE % dict(d=T.dir, k=k, s=sticky, p=0 if act == "full" else vf.rng(f"tee/{cs.name}/{k}").randint(1, 99))); x = T.run(*cs.cmd); fired = int((T.dir / "tee.n").read_text()) >= k
        elif kind == "log":
            p = T.find(cs.t, cs.n) / "result.log"; p.write_text(PRIOR * (2 * cs.size // len(PRIOR) + 500)); x = T.run(*cs.cmd, preexec=fsize(p.stat().st_size + k, act == "efbig"))
        elif kind == "fsize": x = T.run(*cs.cmd, preexec=fsize(k, act == "efbig"))
        else:
            p = T.find(cs.t, cs.n) / kind[6:]; b = bytearray(p.read_bytes()); rr = vf.rng(k)
            if act == "missing": p.unlink()
            elif act == "directory": p.unlink(); p.mkdir()
            else:
                lines = bytes(b).split(b"\n")[:-1]; fired = bool(lines)
                if lines:
                    i = rr.randrange(len(lines)); l = lines[i]; q = rr.randrange(len(l)) if l else 0
                    if act == "undecodable": lines[i] = l[:q] + rr.choice([b"\xff", b"\xc3", b"\x80\x81"]) + l[q + 1:]
                    elif act == "foreign": lines[i] = l[:q] + rr.choice([b"#", b"0", b"*", b"!", "\u00e9".encode(), b" "]) + l[q + 1:]
                    elif act == "noindex": lines[i] = l.split(b"_:_")[0]
                    p.write_bytes(b"".join(y + b"\n" for y in lines))
            if fired: x = T.run(*cs.cmd)
        if not fired: T.rm(); c.stat("faults_not_reached"); return
        what = f"{cs.name} {cs.t} n={cs.n}: {kind} {act}{' ' + os.strerror(e) if e else ''} at {k if not kind.startswith('input') else 'a seeded position'}"
        kd = kind.split(":")[0]; c.ok(1, f"{cs.name}/{cs.t}/{cs.n}/{kind}/{act}/{k}"); c.stat(f"faults_{kd}_{act}")
        if x.returncode == 0:
            c.stat(f"survived_{kd}_{act}")
            got = files(T, cs.t, cs.n, cs.cmd[0] != "rust"); want = cs.clean
            if kd == "input": got.pop(kind[6:], None); want = {a: b for a, b in want.items() if a != kind[6:]}
            d = differ(want, got)
            if d: c.bad(f"{what}: exit status 0 although {d}", f"stdout {x.stdout[-800:]}\nstderr {x.stderr[-800:]}")
        else: c.stat("runs_that_reported_failure")
        if c.evals % 97 == 1: c.sample(f"{what} -> status {x.returncode}")
        T.rm()
    c.stat("commands_under_fault", len(cases))
    vf.pmap(go, jobs)
    return c.finish()
