#!/usr/bin/env python3
"""trybug.py ID [Cxx ...]: try a planted bug in a scratch copy of /repo: build, stable tests, demo, and (own or given) checks.

Works in /tmp/wt (made when missing: a copy of /repo). Only for developing; nothing registered uses it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def sync():
    if not os.path.isdir(WT):
        subprocess.run(["cp", "-a", "/repo", WT], check=True)
    sh(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"])
    sh(["git", "-C", WT, "checkout", "-q", "-f", "--detach", "FETCH_HEAD"])


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def demo(d):
    r = sh(["timeout", "300", "bash", os.path.join(d, "demo.sh")], cwd=WT, env=env())
    return r.returncode, r.stdout[-600:]


def main():
    bug, props = sys.argv[1], sys.argv[2:]
    d = os.path.join(V, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    props = props or [meta["property"]]
    sync()
    build = ["cargo", "test", "--workspace", "--lib", "--bins", "--tests", "--offline", "--no-fail-fast"]
    if "-fast" not in props:
        r = sh(build + ["--no-run"], cwd=WT, env=env())
        assert r.returncode == 0, r.stdout[-3000:]
        rc, out = demo(d)
        print("demo unpatched:", rc, out if rc else "")
    r = sh(["git", "-C", WT, "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        print("patch:", r.stdout)
        return
    try:
        r = sh(build + ["--", "--test-threads", "8"], cwd=WT, env=env())
        failed = [l for l in r.stdout.split("\n") if "FAILED" in l and l.startswith("test ")]
        if "error" in r.stdout and "could not compile" in r.stdout:
            print(r.stdout[-3000:])
            return
        print("tests failing:", failed)
        if "-fast" not in props:
            rc, out = demo(d)
            print("demo patched:", rc, out[-300:])
        for p in props:
            if p == "-fast":
                continue
            t = time.time()
            r = sh(["timeout", "-s", "INT", "900", "python3", "checks/run.py", p], cwd=V, env=dict(os.environ, VERIF_REPO=WT, VERIF_SEED="1", VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            print("check %s: rc %d, %d violations, %.0f s" % (p, r.returncode, len(v), time.time() - t))
            print("   ", "\n    ".join(x[:300] for x in (v[:3] or r.stdout.split("\n")[-6:])))
    finally:
        sh(["git", "-C", WT, "checkout", "-q", "."])


if __name__ == "__main__":
    main()
