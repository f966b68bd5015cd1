"""Common machinery: build the binary from /repo, scratch directories, running TLC, verdicts."""
import atexit, glob, hashlib, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
NCPU = min(8, os.cpu_count() or 1)
BUILD = os.path.join(VERIF, ".build")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar"
T0 = time.time()


class ToolError(Exception):
    """Something about the machinery (not the code under test) failed."""


# ------------------------------------------------------------------ scratch
_scratch = None


def scratch():
    """The run's private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        base = None
        for c in ("/dev/shm", "/tmp", os.path.join(VERIF, ".scratch")):
            try:
                os.makedirs(c, exist_ok=True)
                st = os.statvfs(c)
                if st.f_bavail * st.f_frsize > (3 << 30) and os.access(c, os.W_OK):
                    base = c
                    break
            except OSError:
                pass
        if base is None:
            base = os.path.join(VERIF, ".scratch")
            os.makedirs(base, exist_ok=True)
        _scratch = os.path.realpath(os.path.join(base, "bpv.%d" % os.getpid()))
        rmtree(_scratch)
        os.makedirs(_scratch)
        os.chmod(_scratch, 0o755)
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and (end_ours(), rmtree(_scratch)))
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: os.getpid() == me and sys.exit(2) or os._exit(2))
    return _scratch


def end_ours():
    """Kill what still runs from our scratch directory (binaries we copied there ourselves)."""
    for p in glob.glob("/proc/[0-9]*"):
        try:
            if os.readlink(p + "/exe").startswith(_scratch + "/"):
                os.kill(int(p[6:]), signal.SIGKILL)
        except (OSError, ValueError):
            pass


def rmtree(d):
    """Remove a scratch directory (and only one of ours), whatever modes are inside."""
    if not os.path.lexists(d):
        return
    assert ("/bpv." in d or d.startswith(VERIF + "/.")) and ".." not in d
    def onerror(f, p, e):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            if not os.path.islink(p):
                os.chmod(p, 0o700)
            f(p)
        except OSError:
            pass
    shutil.rmtree(d, onerror=onerror)


# ------------------------------------------------------------------ building
def _tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src", "b2", ".cargo"):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn[:] = sorted(d for d in dn if d not in (".git", "target"))
            files += [os.path.join(dp, f) for f in fn]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def cargo_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             RUSTC_WRAPPER="", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def build_binary(hooked=False):
    """Build /repo's working tree; returns the path of a private copy of the binary. (hooked: with cfg vp_hooks.)"""
    os.makedirs(BUILD, exist_ok=True)
    key = _tree_hash() + "-hooked" * hooked
    kept = os.path.join(BUILD, "backpak." + key)
    env = cargo_env()
    if hooked:
        env["RUSTC_WRAPPER"] = os.path.join(VERIF, "harness/rustc-wrapper.sh")
    if not os.path.exists(kept):
        for d in glob.glob(os.path.join(REPO, "target/debug/.fingerprint/backpak-*")):
            shutil.rmtree(d, ignore_errors=True)
        p = subprocess.run(["cargo", "build", "--offline", "--bin", "backpak"], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if hooked:      # others are to build without
            for d in glob.glob(os.path.join(REPO, "target/debug/.fingerprint/backpak-*")):
                shutil.rmtree(d, ignore_errors=True)
        out = os.path.join(REPO, "target/debug/backpak")
        if p.returncode != 0 or not os.path.exists(out):
            raise ToolError("cargo build failed:\n" + p.stdout[-4000:])
        for old in glob.glob(os.path.join(BUILD, "backpak.*")):
            if time.time() - os.path.getmtime(old) > 600:
                os.unlink(old)
        tmp = kept + ".%d" % os.getpid()
        shutil.copyfile(out, tmp)
        os.chmod(tmp, 0o755)
        subprocess.run(["strip", "-g", tmp], stderr=subprocess.DEVNULL)
        os.rename(tmp, kept)
    mine = os.path.join(scratch(), "backpak" + "-hooked" * hooked)
    shutil.copyfile(kept, mine)
    os.chmod(mine, 0o755)
    return mine


def build_bptrace():
    out = os.path.join(scratch(), "bptrace")
    p = subprocess.run(["gcc", "-O2", "-o", out, os.path.join(VERIF, "tools/bptrace.c")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("gcc bptrace: " + p.stdout)
    return out


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.states = self.distinct = 0
        import re
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            self.states, self.distinct = (int(x.replace(",", "")) for x in m.groups())
        self.lines = []
        for ln in out.splitlines():
            if ln.startswith('"@'):
                try:
                    self.lines.append(json.loads(ln))
                except ValueError:
                    self.lines.append(ln[1:-1].replace('\\"', '"').replace("\\\\", "\\"))

    @property
    def ok(self):
        return "Model checking completed. No error has been found" in self.out

    @property
    def violated(self):
        return ("is violated" in self.out or "Temporal properties were violated" in self.out
                or "Deadlock reached" in self.out)


def tlc(module, cfg, env=None, workers=None, timeout=600, heap="4g", extra=(), files=None):
    """Run TLC on spec/<module>.tla with the text of a config. Returns TlcResult."""
    d = os.path.join(scratch(), "tlc.%s.%d" % (module, time.monotonic_ns()))
    os.makedirs(d)
    for f in glob.glob(os.path.join(VERIF, "spec", "*.tla")):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    with open(os.path.join(d, "run.cfg"), "w") as fh:
        fh.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cp = TLAJARS + ":" + ":".join(glob.glob("/opt/veriftools/tla/*.jar"))
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC",
           "-config", "run.cfg", "-metadir", os.path.join(d, "states"), "-workers", str(workers or NCPU),
           "-noGenerateSpecTE", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC timed out on %s: %s" % (module, (x.stdout or b"")[-2000:]))
    r = TlcResult(p.stdout, p.returncode)
    if not os.environ.get("VERIF_KEEP"):
        rmtree(d)
    return r


# ------------------------------------------------------------------ verdicts
def known_findings(prop):
    """[(key, text)] from KNOWN_FINDINGS.txt for this property (fixed: lines suppress nothing)."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                rest = ln.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out.append((key.split("=", 1)[1], text))
    return out


class Verdict:
    """Collects what a check explored; writes the evidence file and exits."""

    def __init__(self, prop, level, assumptions=()):
        self.prop, self.level = prop, level
        self.assumptions = list(assumptions)
        self.violations = []          # (key, replay dict)
        self.cov = {}
        self.samples = []

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, bool) or isinstance(v, str):
                self.cov[k] = v
            elif isinstance(v, (int, float)):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, **replay):
        self.violations.append((key, replay))

    def finish(self):
        known = dict(known_findings(self.prop))
        new = []
        seen = set()
        for key, rep in self.violations:
            if key.replace(" ", "_") in known:
                seen.add(key.replace(" ", "_"))
            else:
                new.append((key, rep))
        for key, what in known.items():
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, what, "" if key in seen else " (not met in this run)"))
        self.cov.setdefault("samples", self.samples or ["none"])
        ev = {"property": self.prop, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(new)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if new:
            rd = os.path.join(VERIF, ".build", "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (self.prop, os.getpid()))
            with open(path, "w") as fh:
                json.dump([{"key": k, **r} for k, r in new[:20]], fh, indent=1, default=str)
            for k, r in new[:5]:
                print("  %s: %s" % (k, str(r.get("what", ""))[:2000]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        print("OK property=%s %s (%.1f s)" % (self.prop, {k: v for k, v in self.cov.items() if isinstance(v, (int, float))},
                                              time.time() - T0))
        return 0
