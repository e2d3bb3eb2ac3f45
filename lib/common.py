"""Building the driver from the current tree, talking to it, evidence and violation plumbing."""
import json, os, re, select, subprocess, sys, time, shutil, tempfile, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TOOLCHAIN = "1.99.1-x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
BUILD = os.path.join(VERIF, "build")
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="zkv")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             PATH="/root/.cargo/bin:" + e.get("PATH", ""))
    e.pop("CARGO_TARGET_DIR", None)
    return e


class CheckError(Exception):
    """The check itself could not be carried out (neither held nor violated)."""


def cargo(crate, target, args=(), rustflags=None, at=None, locked=True):
    t = time.time()
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
    if rustflags is not None:
        e["RUSTFLAGS"] = rustflags
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet", *(["--locked"] if locked else []), *args],
                       cwd=at or os.path.join(VERIF, "crates", crate),
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        k = p.stdout.find("error")
        sys.stdout.write(p.stdout[max(k, 0):][:6000])
        raise CheckError(f"cargo build of {crate} failed")
    print(f"[build] {crate}: {time.time() - t:.1f} s", flush=True)
    return os.path.join(BUILD, target)


def build_wasm():
    """The code under the symbolic executor, as wasm.  The compiler is built from /repo's sources and manifest against
    crates/memfs as its standard library (files in memory); if that does not build, as it is (files are not covered then)."""
    d = os.path.join(BUILD, "memgen")
    for x in ("compiler", "zkwasm"):
        os.makedirs(os.path.join(d, x), exist_ok=True)

    def put(p, t):
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)
    src = os.path.join(REPO, "packages/compiler")
    m = open(os.path.join(src, "Cargo.toml")).read()
    m = re.sub(r"(?ms)^\[\[bin\]\].*?(?=^\[|\Z)", "", m)
    lib = f'path = "{src}/src/lib.rs"\n'
    m = m.replace("[lib]\n", "[lib]\n" + lib, 1) if "[lib]\n" in m else m + "\n[lib]\n" + lib
    m = m.replace("[package]\n", "[package]\nautobins = false\nautotests = false\nautobenches = false\nautoexamples = false\n", 1)
    m = m.replace("[dependencies]\n", f'[dependencies]\nstd = {{ package = "memfs", path = "{VERIF}/crates/memfs" }}\n', 1)
    put(os.path.join(d, "compiler", "Cargo.toml"), m + "\n[workspace]\n")
    z = os.path.join(VERIF, "crates", "zkwasm")
    m = open(os.path.join(z, "Cargo.toml")).read()
    m = m.replace('path = "/repo/packages/compiler"', f'path = "{d}/compiler"').replace("[lib]\n", f'[lib]\npath = "{z}/src/lib.rs"\n')
    m = m.replace("[dependencies]\n", f'[features]\ndefault = ["files"]\nfiles = []\n\n[dependencies]\nmemfs = {{ path = "{VERIF}/crates/memfs" }}\n')
    put(os.path.join(d, "zkwasm", "Cargo.toml"), m)
    if not os.path.exists(os.path.join(d, "zkwasm", "Cargo.lock")):
        shutil.copy(os.path.join(z, "Cargo.lock"), os.path.join(d, "zkwasm", "Cargo.lock"))
    t = "wasm32-unknown-unknown"
    try:
        out = cargo("zkwasm", "zkwasmfs", ("--target", t), at=os.path.join(d, "zkwasm"), locked=False)
        os.environ["WX_FILES"] = "1"
    except CheckError:
        print("[build] without files in memory", flush=True)
        out = cargo("zkwasm", "zkwasm", ("--target", t))
        os.environ["WX_FILES"] = ""
    return os.path.join(out, t, "release", "zkwasm.wasm")


def build_js():
    """The JavaScript packages' exports (both are linked into zkwasm), bound for node; for replaying counterexamples."""
    tool = "/opt/vp/tools/bin/wasm-bindgen"
    if not os.path.exists(tool):
        return None
    d = os.path.join(scratch(), "js")
    p = subprocess.run([tool, os.environ["WX_WASM"], "--target", "nodejs", "--out-dir", d], capture_output=True, text=True)
    if p.returncode:
        raise CheckError(f"wasm-bindgen failed: {p.stderr[-800:]}")
    return os.path.join(d, "zkwasm.js")


class JsDrive:
    def __init__(self, path):
        self.path = path
        self.p = subprocess.Popen(["node", os.path.join(VERIF, "lib", "jsrun.js"), path], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=scratch())

    def ask(self, fn, *args, secs=90):
        self.p.stdin.write(json.dumps(dict(fn=fn, args=args)) + "\n")
        self.p.stdin.flush()
        line = None
        if select.select([self.p.stdout], [], [], secs)[0]:
            line = self.p.stdout.readline()
        r = json.loads(line) if line else {"ok": False, "panic": "the process died" if line == "" else f"no answer within {secs} s"}
        if r.get("panic"):  # a module that trapped is not used again
            self.p.kill()
            self.p.wait()
            self.__init__(self.path)
        return r


def build_cli():
    return os.path.join(cargo("zkcli", "cli"), "release", "zk-regex")


def build_drive():
    return os.path.join(cargo("zkdrive", "drive"), "release", "zkdrive")


def setup():
    """Checks build for themselves; this shows early that they can."""
    build_drive()
    build_cli()
    cargo("wsym", "wsym")
    build_wasm()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)


def cpu(pid):
    """Seconds of processor time of a process."""
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def answer(p, limit):
    """The next line a helper process writes; None if it takes more than `limit` seconds of processor time."""
    start, t = cpu(p.pid), time.time()
    while not select.select([p.stdout], [], [], 2)[0]:
        if cpu(p.pid) - start > limit or time.time() - t > 20 * limit:
            p.kill()
            p.wait()
            return None
    return p.stdout.readline()


class Drive:
    hangs = 0

    def __init__(self, exe):
        self.exe = exe
        e = env()
        self.tmp = tempfile.mkdtemp(prefix="drv", dir=scratch())
        e["ZKDRIVE_TMP"] = self.tmp
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, env=e)

    def ask(self, **kw):
        try:
            self.p.stdin.write(json.dumps(kw) + "\n")
            self.p.stdin.flush()
            line = answer(self.p, 60 if self.hangs < 1 else 10 if self.hangs < 4 else 2)
        except BrokenPipeError:
            line = ""
        if line is None:
            Drive.hangs += 1
            self.__init__(self.exe)
            return {"ok": False, "panic": "it does not end within a minute"}
        if not line:
            rc = self.p.wait()
            self.__init__(self.exe)
            return {"ok": False, "panic": f"the process died with status {rc}"}
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def git_head():
    p = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True)
    return p.stdout.strip()


# ---------------------------------------------------------------- known findings and reporting
def known_findings():
    """Lines `KNOWN property=<id> key=<key> ...`; `fixed:` lines suppress nothing."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
                out.setdefault(f["property"], {})[f["key"]] = line[7:].split(" ", 2)[2].strip()
    return out


class Report:
    def __init__(self, prop, level, bounds=""):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.violations, self.known = [], []
        self.cov = {}
        self.assumptions = []
        self.kf = known_findings().get(prop, {})
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)

    def violation(self, key, what, data):
        """A replayed counterexample.  `key` identifies the failing input for the known-findings file."""
        if key in self.kf:
            self.known.append((key, what))
            return
        n = len(self.violations)
        path = os.path.join(VERIF, "evidence", "replay", f"{self.prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "key": key, "what": what, **data}, f, indent=1, default=str)
        self.violations.append((key, what, path))

    def finish(self, errors=()):
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        ev["coverage"]["known_findings_seen"] = [k for k, _ in self.known]
        ev["coverage"]["repo_head"] = git_head()
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, w in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}: {w}")
        for k, w, p in self.violations[:40]:
            print(f"{k}: {w}")
            print(f"VIOLATION property={self.prop} replay={p}")
        if len(self.violations) > 40:
            print(f"({len(self.violations) - 40} more violations)")
        sys.stdout.flush()
        if self.violations:
            sys.exit(1)
        if errors:
            for e in errors:
                print("ERROR:", e)
            sys.exit(3)
        print(f"{self.prop}: held on everything explored ({ev['wall_s']} s)")
        sys.exit(0)
