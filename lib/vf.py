"""Shared machinery: building the code under test, running it, talking to the
oracle and to the in-process probe, and reporting."""
import os, sys, json, time, hashlib, subprocess, shutil, tempfile, fcntl, contextlib, random, signal, threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
CRATE = REPO / "rust"
BUILD = Path(os.environ.get("VERIF_BUILD", str(VERIF / "build")))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = min(8, os.cpu_count() or 4)
ALPH = "+-iIjJkKqQxXyYzZ"
PAIRINGS = ["WX", "WY", "WZ"]
OPTS = ["psd", "correlation"]

def rng(tag=""):
    return random.Random(f"{SEED}/{tag}")

def tool_env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "VERIF_"))}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update({k: str(v) for k, v in kw.items()})
    return e

# ------------------------------------------------------------------ building
def _hash_paths(paths):
    h = hashlib.sha256()
    for p in paths:
        p = Path(p)
        fs = sorted(x for x in p.rglob("*") if x.is_file()) if p.is_dir() else ([p] if p.is_file() else [])
        for f in fs:
            if "target" in f.relative_to(p).parts if p.is_dir() else False: continue
            h.update(str(f).encode() + b"\0" + hashlib.sha256(f.read_bytes()).digest())
    return h.hexdigest()[:16]

def repo_hash():
    return _hash_paths([CRATE / "src", CRATE / "Cargo.toml", CRATE / "Cargo.lock", CRATE / "build.rs", CRATE / ".cargo"])

@contextlib.contextmanager
def build_lock():
    BUILD.mkdir(parents=True, exist_ok=True)
    with open(BUILD / "lock", "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

class BuildError(Exception): pass

def _run_build(cmd, env, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("$ " + " ".join(map(str, cmd)) + "\n" + r.stdout[-6000:])
    return r.stdout

def _artifact(name, key, make):
    """BUILD/bin/<name>-<key>; stale ones of the same name are removed."""
    out = BUILD / "bin" / f"{name}-{key}"
    if out.exists(): return out
    with build_lock():
        if out.exists(): return out
        out.parent.mkdir(parents=True, exist_ok=True)
        src = make()
        tmp = out.with_suffix(".tmp")
        subprocess.run(["cp", "-f", str(src), str(tmp)], check=True); os.chmod(tmp, 0o755); os.rename(tmp, out)
        for old in out.parent.glob(f"{name}-*"):
            if old != out: old.unlink()
    return out

CHECKED = ["--config", "profile.release.debug-assertions=true", "--config", "profile.release.overflow-checks=true",
           "--config", 'profile.release.package."*".debug-assertions=false', "--config", 'profile.release.package."*".overflow-checks=false']

def _cargo_bin(manifest, pkg, binname, extra=(), env=None, target=None, toolchain=None):
    target = target or BUILD / "target"
    env = tool_env(**(env or {}))
    if toolchain: env["RUSTUP_TOOLCHAIN"] = toolchain
    # content decides freshness, not mtimes: always drop the crate's own products first
    subprocess.run(["cargo", "clean", "--release", "--offline", "-p", pkg, "--manifest-path", str(manifest), "--target-dir", str(target)],
                   env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    _run_build(["cargo", "build", "--release", "--offline", "--manifest-path", str(manifest), "--target-dir", str(target), *extra], env)
    return target / "release" / binname

def cli(checked=False):
    """The program itself, as the driver builds it (or with overflow checks and debug assertions)."""
    key = repo_hash()
    if checked:
        return _artifact("clichk", key, lambda: _cargo_bin(CRATE / "Cargo.toml", "rust", "rust", ["--locked", *CHECKED]))
    return _artifact("cli", key, lambda: _cargo_bin(CRATE / "Cargo.toml", "rust", "rust", ["--locked"]))

def oracle():
    key = _hash_paths([VERIF / "oracle" / "src", VERIF / "oracle" / "Cargo.toml"])
    return _artifact("oracle", key, lambda: _cargo_bin(VERIF / "oracle" / "Cargo.toml", "oracle", "oracle", target=BUILD / "otarget"))

def _harness_key():
    return hashlib.sha256((repo_hash() + _hash_paths([VERIF / "harness", VERIF / "oracle" / "src"])).encode()).hexdigest()[:16]

HARNESS_DIR = BUILD / "harness"
def _make_harness_crate():
    HARNESS_DIR.mkdir(parents=True, exist_ok=True)
    t = (VERIF / "harness" / "Cargo.toml.in").read_text().replace("@CRATE@", str(CRATE))
    p = HARNESS_DIR / "Cargo.toml"
    if not p.exists() or p.read_text() != t: p.write_text(t)
    shutil.copyfile(VERIF / "harness" / "Cargo.lock", HARNESS_DIR / "Cargo.lock")
    return p

PROBE_NOTES = []
def probe(component):
    """The program compiled with the hook and the in-process monitors.  Falls back to the one
    component needed when another does not compile against the present tree; None if
    that one does not either (the check then relies on its black-box part)."""
    key = _harness_key()
    env = dict(VERIF_PROBE_DIR=str(VERIF / "harness" / "probe"))
    def mk(feats):
        return lambda: _cargo_bin(_make_harness_crate(), "vharness", "vharness", ["--no-default-features", "--features", feats], env)
    bad = BUILD / "bin" / f"nobuild-all-{key}"
    if not bad.exists():
        try:
            return _artifact("probe", key, mk("all"))
        except BuildError as e:
            bad.parent.mkdir(parents=True, exist_ok=True)
            for old in bad.parent.glob("nobuild-*"): old.unlink()
            bad.write_text(str(e))
    try:
        return _artifact(f"probe_{component}", key, mk(f"verif,p_{component}"))
    except BuildError as e:
        PROBE_NOTES.append(f"probe component {component} does not compile against this tree; black-box monitoring only: {str(e)[-600:]}")
        return None

NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
def sanitized(kind):
    """The program with the in-process monitors, all of it (standard library, FFT library) instrumented by a
    sanitizer: "address" or "thread".  Also serves as the plain command line program."""
    key = _harness_key()
    def mk(feats):
        def go():
            target = BUILD / f"starget-{kind}"; triple = "x86_64-unknown-linux-gnu"
            env = tool_env(VERIF_PROBE_DIR=VERIF / "harness" / "probe", RUSTUP_TOOLCHAIN=NIGHTLY, CC=VERIF / "lib" / "ccsan.sh", CCSAN=kind,
                           RUSTFLAGS=f"-Zsanitizer={kind} -Cunsafe-allow-abi-mismatch=sanitizer -Cdebuginfo=1")
            m = _make_harness_crate()
            subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "vharness", "--target", triple, "--manifest-path", str(m), "--target-dir", str(target)],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            _run_build(["cargo", "build", "--release", "--offline", "--manifest-path", str(m), "--target-dir", str(target), "--target", triple,
                        *(["-Zbuild-std"] if kind == "thread" else []), "--no-default-features", "--features", feats], env)
            return target / triple / "release" / "vharness"
        return go
    last = None
    for name, feats in ((f"san_{kind}", "all"), (f"san_{kind}_par", "verif,p_par"), (f"san_{kind}_cli", "")):
        try: return _artifact(name, key, mk(feats)), feats
        except BuildError as e: last = e
    raise last

def faultlib():
    src = VERIF / "lib" / "fault.c"
    def mk():
        out = BUILD / "fault.so"
        _run_build(["gcc", "-O1", "-shared", "-fPIC", "-o", str(out), str(src), "-ldl"], tool_env())
        return out
    return _artifact("fault.so", _hash_paths([src]), mk)

# ------------------------------------------------------------------ scratch
_scratch_root = None
_scratch_l = threading.Lock()
def scratch_root():
    global _scratch_root
    with _scratch_l:
        if _scratch_root is None:
            _scratch_root = Path(tempfile.mkdtemp(prefix="vf-"))
        return _scratch_root
def cleanup():
    if _scratch_root is not None: shutil.rmtree(_scratch_root, ignore_errors=True)

SCRIPTS = ["driver.sh", "pairs.sh", "sortpairs.sh", "join_pairs.sh", "convert_hm.sh", "convert_qhm.sh", "countpairs.sh", "pair_file_cleanup.sh", "collect_results.py"]
def put_exec(path, text):
    """Writes an executable without this process ever holding it open for writing: a child forked meanwhile by
    another thread would inherit the descriptor, and running the file would fail with "Text file busy"."""
    subprocess.run(["sh", "-c", 'cat > "$0" && chmod 755 "$0"', str(path)], input=text, text=True, check=True)
_tree_n = 0; _tree_l = threading.Lock()
class Tree:
    """A scratch copy of the rust/ folder as a user sees it: the scripts, target/release/rust, and
    a stub `cargo` (the program is already built) first in PATH."""
    def __init__(self, binary=None, scripts=True):
        global _tree_n
        with _tree_l:
            _tree_n += 1; k = _tree_n
        self.dir = scratch_root() / f"t{k}"; self.extra = {}
        (self.dir / "target" / "release").mkdir(parents=True)
        (self.dir / "stub").mkdir()
        self.binary = str(binary or cli())
        if scripts:
            src = [f for f in CRATE.iterdir() if f.is_file() and f.suffix in (".sh", ".py")]
            if src:
                subprocess.run(["cp", *map(str, src), str(self.dir)], check=True)
                for f in src: os.chmod(self.dir / f.name, 0o755)
            os.symlink(self.binary, self.dir / "target" / "release" / "rust")
            self.stub("cargo", "#!/bin/sh\nexit 0\n")
    def stub(self, name, text): put_exec(self.dir / "stub" / name, text)
    def env(self, **kw):
        e = tool_env(**{**self.extra, **kw}); e["PATH"] = str(self.dir / "stub") + ":" + e["PATH"]; return e
    def run(self, *cmd, env=None, timeout=600, binary=None, input=None, preexec=None, **kw):
        cmd = [str(c) for c in cmd]
        if cmd[0] == "rust": cmd[0] = str(binary or self.binary)
        try:
            return subprocess.run(cmd, cwd=self.dir, env=env or self.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  text=True, errors="replace", timeout=timeout, input=input, preexec_fn=preexec, **({} if input is not None else dict(stdin=subprocess.DEVNULL)))
        except subprocess.TimeoutExpired as ex:
            dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
            return subprocess.CompletedProcess(cmd, -999, dec(ex.stdout), dec(ex.stderr) + "\n[timeout]")
    def find(self, t, n): return self.dir / "results" / "pairs" / t / f"find_{n}"
    def text(self, t, n, f):
        p = self.find(t, n) / f
        return p.read_text(errors="replace") if p.exists() else None
    def lines(self, t, n, f):
        x = self.text(t, n, f)
        return None if x is None else x.split("\n")[:-1] if x.endswith("\n") else (x.split("\n") if x else [])
    def rm(self): shutil.rmtree(self.dir, ignore_errors=True)

def parse_qseq(text):
    """The quadruples of a .qseq file as lists of four +- strings (None where malformed)."""
    out = []
    for blk in text.split("]\n]"):
        if blk.strip() == "": continue
        rows = [l.strip().strip("[]") for l in blk.strip().split("\n") if l.strip() not in ("", "[")]
        out.append(rows if len(rows) == 4 and all(set(r) <= set("+-") and r for r in rows) and len(set(map(len, rows))) == 1 else None)
    return out

# ------------------------------------------------------------------ oracle
def orc(args, lines=None, timeout=600):
    r = subprocess.run([str(oracle()), *map(str, args)], input="".join(l + "\n" for l in lines) if lines is not None else None,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0: raise RuntimeError(f"oracle {args}: {r.stderr[-2000:]}")
    return r.stdout.split("\n")[:-1]
_enum = {}; _enum_l = {}
_enum_g = threading.Lock()
def enum(t, n):
    """All classes of type t and length n (set of class ids)."""
    with _enum_g: l = _enum_l.setdefault((t, n), threading.Lock())
    with l:
        if (t, n) not in _enum:
            _enum[t, n] = set(x for x in orc(["enum", t, n]) if not x.startswith("#"))
        return _enum[t, n]
def classify(t, seqs):
    """[(n, valid, perfect, class id)] or None for lines that are no sequence."""
    if not seqs: return []
    out = []
    for l in orc(["classify", t], [s if s else "?" for s in seqs]):
        p = l.split()
        out.append(None if p[0] == "bad" else (int(p[0]), p[1] == "1" or p[1] == "true", p[2] == "1" or p[2] == "true", p[3]))
    return out
def quads_to_chars(quads):
    return orc(["quads"], [" ".join(q) for q in quads]) if quads else []

def pmap(f, xs, jobs=None):
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(f, xs))

# ------------------------------------------------------------------ reporting
class Undisturbed(Exception):
    """a run in which nothing was disturbed does not complete"""
current = None
class Check:
    def __init__(self, pid, level="exploration", rule=""):
        global current
        current = self
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.evals = 0; self.distinct = set(); self.samples = []; self.stats = {}; self.viol = []; self.notes = []
        self.lock = threading.Lock()
        self.known = []
        kf = VERIF / "known_findings.txt"
        if kf.exists():
            for l in kf.read_text().split("\n"):
                if l.startswith(f"finding: property={pid} "):
                    self.known.append(l.split("|", 1)[0].split(" ", 2)[2].strip())
        self.seen_known = set()
    def ok(self, n=1, key=None):
        with self.lock:
            self.evals += n
            if key is not None: self.distinct.add(key if isinstance(key, (str, tuple, int)) else str(key))
    def stat(self, k, v=1):
        with self.lock: self.stats[k] = self.stats.get(k, 0) + v
    def sample(self, s, cap=8):
        with self.lock:
            if len(self.samples) < cap: self.samples.append(s)
    def note(self, s):
        with self.lock: self.notes.append(s)
    def bad(self, sig, detail=None):
        """sig identifies the failing input / site; detail is stored for replay."""
        with self.lock:
            for k in self.known:
                if k == sig:
                    if k not in self.seen_known:
                        self.seen_known.add(k); print(f"KNOWN-FINDING: property={self.pid} {k}", flush=True)
                    return
            self.viol.append((sig, detail))
            if len(self.viol) <= 5: print(f"[{self.pid}] violation: {sig}", file=sys.stderr, flush=True)
    def elapsed(self): return time.time() - self.t0
    def probe_out(self, r, what):
        """Feeds the output of a probe run into the counters; panics and missing DONE are violations."""
        done = False
        for l in r.stdout.split("\n"):
            if l.startswith("STAT "):
                _, k, v = l.split(" ", 2); self.stat(k, int(v))
                if k == "evals": self.ok(int(v))
            elif l.startswith("KEY "): self.ok(0, what.split()[0] + ":" + l[4:])
            elif l.startswith("SAMPLE "): self.sample(l[7:])
            elif l.startswith("VIOL "): self.bad(f"{what}: {l[5:]}", l)
            elif l == "DONE": done = True
        if not done or r.returncode != 0:
            self.bad(f"{what}: died with status {r.returncode}: {(r.stderr or '').strip()[-400:]}", r.stderr)
    def finish(self, extra=None, exhaustive=False):
        for n in PROBE_NOTES: self.notes.append(n)
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples[:12] or ["(none)"],
                   monitors=dict(sorted(self.stats.items())), notes=self.notes[:20])
        if exhaustive: cov["exhaustive"] = True
        if extra: cov.update(extra)
        ev = dict(property=self.pid, tier="thorough" if THOROUGH else "quick", seed=SEED, level=self.level, coverage=cov,
                  assumptions=["the reference model in /verif/oracle is correct (self-tested, and its counts agree with the published enumeration)"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        d = Path(os.environ.get("VERIF_EVIDENCE", str(VERIF / "evidence"))); d.mkdir(exist_ok=True)
        (d / f"{self.pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
        if self.viol:
            rp = d / f"{self.pid}.violation.txt"
            with open(rp, "w") as f:
                f.write(f"property {self.pid} seed {SEED} tier {TIER}\n")
                for s, dt in self.viol[:50]: f.write(f"--- {s}\n{'' if dt is None else dt}\n")
            for s, _ in self.viol[:3]: print(f"  {s}")
            print(f"VIOLATION property={self.pid} replay=evidence/{rp.name}", flush=True)
            return 1
        (d / f"{self.pid}.violation.txt").unlink(missing_ok=True)
        print(f"{self.pid} ok: {self.evals} evaluations, {len(self.distinct)} distinct, {ev['wall_s']} s")
        return 0
