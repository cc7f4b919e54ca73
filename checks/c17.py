"""C17: the program under AddressSanitizer, ThreadSanitizer (standard library and FFT library instrumented as well), valgrind
memcheck, and in a build with overflow checks and debug assertions.  The workloads are those of the other checks: what is
judged here is only whether a monitor reports something."""
import os, re, shutil
import vf, common
from vf import THOROUGH, OPTS, PAIRINGS
ENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1", TSAN_OPTIONS="exitcode=66:halt_on_error=0:second_deadlock_stack=1", RUST_BACKTRACE="0")
REPORT = re.compile(r"(ERROR|WARNING|SUMMARY): (AddressSanitizer|ThreadSanitizer)[^\n]*|==\d+== (Invalid|Conditional jump|Use of uninit|Syscall param|Mismatched)[^\n]*|thread '[^\n]*panicked at[^\n]*(?:\n[^\n]*)?|stack overflow|double free[^\n]*|free\(\): [^\n]*|malloc[^\n]*corrupt[^\n]*")
_rep = set()
def judge(c, monitor, what, x, expect_done=False):
    text = x.stdout[-20000:] + "\n" + x.stderr
    c.ok(1, f"{monitor}: {what}"); c.stat(f"runs_{monitor}")
    for l in x.stdout.split("\n"):
        if l.startswith("STAT evals "): c.stat(f"probe_observations_{monitor}", int(l.split()[2]))
    m = [y for y in REPORT.finditer(text) if y.group(0)]
    dead = x.returncode != 0 or (expect_done and "\nDONE" not in "\n" + x.stdout)
    if m or dead:
        first = m[0].group(0).replace("\n", " ") if m else f"died with status {x.returncode}: {x.stderr.strip()[-200:]}"
        site = re.sub(r"0x[0-9a-f]+|\(pid=\d+\)|==\d+==|\(\d+\)|T\d+|'[^']*'", "", first)
        with c.lock:
            if site in _rep and len(_rep) > 0: c.stats["repeated_reports"] = c.stats.get("repeated_reports", 0) + 1
            _rep.add(site)
        c.bad(f"{monitor}: {what}: {first[:300]}", text[-6000:])
    elif c.evals % 40 == 1: c.sample(f"{monitor}: {what}: no report")
def pipeline(c, monitor, binary, t, n, o, p, r, threads=None, hm=True, checks=True, wrap=()):
    """every command of a search under the monitor; the scripts are those of the tree, the program is the instrumented one"""
    T = vf.Tree(binary=binary); T.find(t, n).mkdir(parents=True); env = T.env(**ENV, **({"RAYON_NUM_THREADS": threads} if threads else {}))
    def step(*cmd):
        x = T.run(*(list(wrap) + [str(binary)] + list(cmd[1:]) if wrap and cmd[0] == "rust" else cmd), env=env, timeout=800)
        judge(c, monitor, f"{' '.join(str(y) for y in cmd if y != 'rust')} ({o} {p})", x); return x.returncode == 0
    ok = step("rust", "rowsums", t, n)
    quads = [l.split() for l in (T.text(t, n, "rowsums.quad") or "").split("\n") if len(l.split()) == 4]
    ok = step("rust", "pairs", t, n, o, p) and step("./sortpairs.sh", t, n) and step("rust", "join", t, n)
    if ok and (T.lines(t, n, "result.seq") or []):
        if hm: step("rust", "convert", "hm", t, n)
        step("rust", "convert", "qhm", t, n)
        if n <= (8 if t == "ws" else 5): step("rust", "qhm-all", t, n)
        if t == "qts" and n <= 7: T.run("rust", "amicable", n, env=env)
    if quads:
        q = r.choice(quads)
        step("rust", "pairs_rowsum", t, n, *q, o, p); step("rust", "create", t, n, *q, p)
        for k in (1, 2): step("rust", "pair_single", t, n, *q, o, p, k)
    T.rm()
def main():
    c = vf.Check("C17", rule="one execution of a command or of an in-process workload under one monitor; distinct = distinct (monitor, command or workload, arguments)")
    r = vf.rng("c17"); jobs = []
    chk = vf.cli(checked=True); pb = vf.probe("equiv")
    (asan, fa), (tsan, ft) = vf.sanitized("address"), vf.sanitized("thread")
    for k, f in (("address", fa), ("thread", ft)):
        if f != "all": c.note(f"{k} sanitizer: only the features '{f}' compile against this tree")
    # 1. the pipeline: checked build at all lengths, sanitizers at small ones
    top = dict(ws=16, qts=10, wts=11) if THOROUGH else dict(ws=13, qts=7, wts=8)
    cfg = [(o, p) for o in OPTS for p in PAIRINGS]
    for t, m in top.items():
        for n in range(1, m + 1):
            for o, p in (cfg if THOROUGH else r.sample(cfg, 2)):
                jobs.append((2.0 ** n / 2e3, lambda t=t, n=n, o=o, p=p, s=r.random(): pipeline(c, "checked", chk, t, n, o, p, vf.rng(s))))
            if n <= m - 1 and not (n == 1 and t == "ws"):
                o, p = r.choice(cfg); jobs.append((2.0 ** n / 5e2, lambda t=t, n=n, o=o, p=p, s=r.random(): pipeline(c, "asan", asan, t, n, o, p, vf.rng(s), threads=4)))
            if n <= m - 2:
                o, p = r.choice(cfg); jobs.append((2.0 ** n / 2e2, lambda t=t, n=n, o=o, p=p, s=r.random(): pipeline(c, "tsan", tsan, t, n, o, p, vf.rng(s), threads=8)))
    # 2. planted searches and conversions of every length in the checked build
    nd = common.needles()
    if pb:
        for t in ("wts", "qts", "ws"):
            for n in (range(2, 32) if THOROUGH else sorted(r.sample(range(2, 28), 12)) + [28, 29, 30, 31]):
                if not nd[t][n]: continue
                def planted(t=t, n=n, s=r.random()):
                    rr = vf.rng(s); o, p = rr.choice(cfg)
                    T = vf.Tree(binary=chk); T, x = common.needle_tree(t, n, o, p, common.needle_block(t, n, rr, classes=2, copies=1, ndecoys=4), pb, tree=T)
                    judge(c, "checked", f"pair files of planted {t} n={n} {o} {p}", x, True)
                    ok = x.returncode == 0
                    for cmd in (["./sortpairs.sh", t, n], ["rust", "join", t, n], ["rust", "convert", "qhm", t, n]) + ((["rust", "convert", "hm", t, n],) if n <= 18 or THOROUGH else ()):
                        if ok: x = T.run(*cmd, timeout=800); judge(c, "checked", f"{' '.join(map(str, cmd))} planted", x); ok = x.returncode == 0
                    T.rm()
                jobs.append((n / 6., planted))
    # 3. in-process workloads of the other checks
    def probe_job(monitor, binary, args, lines=None, env=None, wrap=()):
        def go():
            T = vf.Tree(scripts=False)
            x = T.run(*wrap, str(binary), f"verif:{args[0]}", *args[1:], input="".join(l + "\n" for l in lines or []), timeout=800, env=T.env(**ENV, **(env or {})))
            judge(c, monitor, " ".join(map(str, args)) + (f" ({len(lines)} sequences up to length {max((len(l.split()[1]) for l in lines), default=0)})" if lines else ""), x, True); T.rm()
        return go
    def seqs(maxn, per, types=("wts", "qts", "ws"), minn=1):
        return [f"{t} {s}" for t, n, ids in common.grouped(types, range(minn, maxn + 1), per, r) for s in ids]
    S = 4 if THOROUGH else 1
    sd = lambda: r.randrange(1 << 40)
    def mods(maxn, per):
        """(workload, lines)"""
        yield ["enc", sd(), 300 * S], None
        yield ["equiv", "canon", sd(), 1, 60], seqs(maxn, per, minn=2)
        yield ["equiv", "ops", sd(), 1], seqs(maxn, per, minn=2)
        yield ["pred", sd(), 2, 4], seqs(maxn, per)
        yield ["rowsum", sd(), min(maxn, 9), 4, 3000], None
        yield ["hm", sd(), 1], seqs(min(maxn, 9), 2)
        yield ["qhm", sd(), 1], seqs(min(maxn, 13), per)
        yield ["mum", "ops", sd(), 1, 6], seqs(min(maxn, 8), per)
        yield ["mum", "prod", sd(), 3], seqs(min(maxn, 8), per)
        for m in ("quad", "sorted", "sym", "mats"): yield ["acc", m, sd(), 400 * S], None
        n = r.randrange(2, min(maxn, 9)); yield ["corr", n, sd(), 6 * S], [f"{t} {s}" for t, s in [l.split() for l in seqs(n, per, minn=n)]]
        yield ["eqn", "gen", sd(), 4, 4], seqs(min(maxn, 8), 1, minn=2)
        yield ["eqn", "search", r.choice([2, 3, 4])], None
        for m in (["naive", 3, "none"], ["optim", 3, "none"], ["optim", 4, "II"], ["q24", 3, "none"], ["optim", 5, "I"], ["williamson", 3, "wts"], ["unique", 3]): yield ["find", *m], None
    if fa == "all":
        for a, l in mods(14 if THOROUGH else 11, 2 * S): jobs.append((3, probe_job("asan", asan, a, l, dict(RAYON_NUM_THREADS=4))))
    if ft == "all":
        for a, l in mods(9, 1): jobs.append((3, probe_job("tsan", tsan, a, l, dict(RAYON_NUM_THREADS=8))))
        for _ in range(4 * S): jobs.append((4, probe_job("tsan", tsan, ["par", "red", r.choice([2, 4, 8]), sd()], seqs(8, 2))))
        for m in (["optim", 4, "none"], ["optim", 6, "II"], ["q24", 4, "I"]): jobs.append((3, probe_job("tsan", tsan, ["find", *m], None, dict(RAYON_NUM_THREADS=8))))
    if "par" in ft or ft == "all":
        for n in (range(1, 32) if THOROUGH else r.sample(range(1, 32), 10)):
            jobs.append((2, probe_job("tsan", tsan, ["par", "dft", n, r.choice([2, 3, 4, 8, 16]), 60, sd()])))
            for _ in range(2): jobs.append((1, probe_job("tsan", tsan, ["par", "first", n, r.choice([2, 3, 4, 8, 16]), sd()])))
    if "par" in fa or fa == "all":
        for n in range(1, 32):
            jobs.append((1, probe_job("asan", asan, ["par", "dft", n, r.choice([1, 2, 8]), 60, sd()]))); jobs.append((1, probe_job("asan", asan, ["par", "first", n, r.choice([2, 8]), sd()])))
    # candidate generation and matching data of the longer lengths
    if fa == "all":
        for n in (range(10, 32) if THOROUGH else r.sample(range(10, 32), 5)):
            t = r.choice(["wts", "qts", "ws"])
            if not nd[t][n]: continue
            def matching(t=t, n=n, s=r.random()):
                rr = vf.rng(s); o, p = rr.choice(cfg); T = vf.Tree(binary=asan)
                blk = common.needle_block(t, n, rr, classes=1, copies=1, ndecoys=2); root = T.find(t, n); root.mkdir(parents=True)
                inp = "".join("R " + rs.replace(",", " ") + "\n" + "".join(l + "\n" for l in common.block_lines(ls)) for rs, ls in blk)
                x = T.run(str(asan), "verif:match", t, o, p, str(root), input=inp, env=T.env(**ENV)); judge(c, "asan", f"pair files of planted {t} n={n} {o} {p}", x, True)
                ok = x.returncode == 0
                for cmd in (["./sortpairs.sh", t, n], ["rust", "join", t, n], ["rust", "convert", "qhm", t, n]) + ((["rust", "convert", "hm", t, n],) if n < 16 else ()):
                    if ok: x = T.run(*cmd, env=T.env(**ENV)); judge(c, "asan", f"{' '.join(map(str, cmd))} planted", x); ok = x.returncode == 0
                T.rm()
            jobs.append((6, matching))
    # 4. uninitialised memory
    vg = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--track-origins=no"]
    plain = vf.cli()
    def grind(t, n, o, p, s): return lambda: pipeline(c, "memcheck", plain, t, n, o, p, vf.rng(s), threads=2, wrap=vg)
    for t, m in (dict(ws=9, qts=6, wts=6) if THOROUGH else dict(ws=6, qts=3, wts=4)).items():
        for n in range(max(1, m - 2), m + 1): o, p = r.choice(cfg); jobs.append((20, grind(t, n, o, p, r.random())))
    if pb:
        for n in r.sample(range(2, 32), 24 if THOROUGH else 5): jobs.append((15, probe_job("memcheck", pb, ["par", "dft", n, 2, 3, sd()], wrap=vg)))
        jobs.append((15, probe_job("memcheck", pb, ["mum", "ops", sd(), 1, 3], seqs(3, 1), wrap=vg))); jobs.append((15, probe_job("memcheck", pb, ["qhm", sd(), 1], seqs(5, 1), wrap=vg)))
    jobs.sort(key=lambda j: -j[0])
    vf.pmap(lambda j: j[1](), jobs)
    return c.finish()
