"""C23: the semaphore's design (Semaphore.tla) in TLC, and the real backend under schedules: those of the design, every one
of small cases, random ones, and the kernel's; what happened is judged by the abstract limiter (LimiterTrace.tla)."""
import json, os, random, re, shutil, subprocess, glob, time
from concurrent.futures import ThreadPoolExecutor
import bp

HARNESS = os.path.join(bp.VERIF, "harness")


def build(name):
    """Build the harness crate of that name against /repo's working tree, with its hooks on."""
    src = os.path.join(HARNESS, name)
    d = os.path.join(bp.scratch(), "harness")
    if not os.path.isdir(d):
        shutil.copytree(HARNESS, d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    crate = os.path.join(d, name)
    p = os.path.join(crate, "Cargo.toml")
    with open(p) as fh:
        text = fh.read()
    with open(p, "w") as fh:
        fh.write(text.replace('"/repo', '"' + bp.REPO))
    shutil.copy(os.path.join(bp.REPO, "Cargo.lock"), crate)
    e = bp.cargo_env()
    e.update(RUSTC_WRAPPER=os.path.join(d, "rustc-wrapper.sh"), CARGO_TARGET_DIR=os.path.join(bp.REPO, "target"))
    for f in glob.glob(os.path.join(bp.REPO, "target/debug/.fingerprint/backpak-*")):
        shutil.rmtree(f, ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline"], cwd=crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    out = os.path.join(bp.REPO, "target/debug", name)
    if r.returncode or not os.path.exists(out):
        raise bp.ToolError("building the %s harness failed:\n%s" % (name, r.stdout[-4000:]))
    mine = os.path.join(bp.scratch(), name)
    shutil.copyfile(out, mine)
    os.chmod(mine, 0o755)
    return mine


def cfg(n, t, r, spurious=False, rule="always", live=True):
    return ('CONSTANTS\n Threads = {%s}\n N = %d\n Rounds = %d\n Spurious = %s\n WakeRule = "%s"\nSPECIFICATION Spec\n'
            "INVARIANTS TypeOK Slots NeverMore NobodyForgotten\n%s\nCHECK_DEADLOCK FALSE\n"
            % (", ".join('"t%d"' % i for i in range(t)), n, r, str(spurious).upper(), rule, "PROPERTIES Everyone Limits" if live else ""))


def design(v):
    todo = [(3, 1, 2), (4, 2, 1), (4, 2, 2, True, "always", False), (4, 3, 1, True)]
    todo = [(n, t, *r) for t, n, *r in todo]
    if not bp.QUICK:
        todo += [(1, 4, 2, True), (2, 4, 2), (2, 5, 1, True), (3, 5, 1), (2, 5, 2, True, "always", False), (3, 6, 1, True, "always", False)]
    for a in todo:
        r = bp.tlc("Semaphore", cfg(*a))
        if not r.ok:
            raise bp.ToolError("the design of the semaphore doesn't hold for %s: %s" % (a, r.out[-2000:]))
        v.add(design_states=r.distinct)
    # The design's own check notices a lost wakeup.
    r = bp.tlc("Semaphore", cfg(2, 4, 1, rule="fromzero"))
    if not r.violated:
        raise bp.ToolError("the semaphore's model doesn't notice a lost wakeup")


def schedules(n, t, r, rng, limit):
    """Walks through the design's state graph that cover all its steps, as schedules."""
    d = os.path.join(bp.scratch(), "dot%d.%d.%d" % (n, t, r))
    res = bp.tlc("Semaphore", cfg(n, t, r, True, "always", False), extra=("-dump", "dot", d), workers=1)
    if not res.ok:
        raise bp.ToolError("no state graph: " + res.out[-1000:])
    with open(d + ".dot") as fh:
        text = fh.read()
    os.unlink(d + ".dot")
    pcs, edges = {}, {}
    for m in re.finditer(r'^(-?\d+) \[label="((?:[^"\\]|\\.)*)"', text, re.M):
        pcs[m[1]] = dict(re.findall(r't(\d+) \|-> \\"(\w+)\\"', m[2]))
    for m in re.finditer(r'^(-?\d+) -> (-?\d+)', text, re.M):
        if m[1] != m[2]:
            edges.setdefault(m[1], set()).add(m[2])
    first = [i for i in pcs if re.search(r'^%s \[.*style = filled' % re.escape(i), text, re.M)][0]

    def step(a, b):
        ch = {k: (pcs[a][k], pcs[b][k]) for k in pcs[a] if pcs[a][k] != pcs[b][k]}
        if len(ch) == 2:
            w = [k for k in ch if ch[k][0] == "wake"][0]
            return "%s>%s" % (w, [k for k in ch if k != w][0])
        (k, (x, y)), = ch.items()
        return k + "!" if x == "asleep" else k

    left = {(a, b) for a in edges for b in edges[a]}
    # shortest ways from the start
    way, todo = {first: None}, [first]
    for a in todo:
        for b in sorted(edges.get(a, ())):
            if b not in way:
                way[b] = a
                todo.append(b)
    out = []
    for e in sorted(left, key=lambda e: rng.random()):
        if e not in left or len(out) >= limit:
            continue
        path, a = [e[1], e[0]], e[0]
        while way[a] is not None:
            a = way[a]
            path.append(a)
        path.reverse()
        while edges.get(path[-1]):
            new = [b for b in sorted(edges[path[-1]]) if (path[-1], b) in left]
            path.append(rng.choice(new or sorted(edges[path[-1]])))
            if len(path) > 80:
                break
        left -= set(zip(path, path[1:]))
        out.append("%d %d %d %s" % (n, t, r, " ".join(step(a, b) for a, b in zip(path, path[1:]))))
    return out, len(left)


def sem(exe, args, text=None, timeout=300):
    try:
        p = subprocess.run([exe, *map(str, args)], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    return p.returncode, p.stdout.splitlines()


def engine(v, prop):
    exe = build("sem")
    design(v)
    rng = random.Random(bp.SEED)
    jobs = []
    uncovered = 0
    for n, t, r in [(1, 2, 2), (1, 3, 1), (2, 3, 1), (2, 4, 1)] + ([] if bp.QUICK else [(1, 3, 2), (2, 3, 2), (3, 5, 1)]):
        lines, left = schedules(n, t, r, rng, 1500 if bp.QUICK else 20000)
        uncovered += left
        v.add(schedules_from_the_design=len(lines))
        for i in range(8):
            if lines[i::8]:
                jobs.append((["replay"], "\n".join(lines[i::8]) + "\n"))
    k = 1 if bp.QUICK else 20
    jobs += [(["dfs", *a], None) for a in ((1, 2, 1, 500), (1, 2, 2, 5000), (1, 3, 1, 4000 * k), (2, 3, 1, 4000 * k), (2, 3, 2, 2000 * k),
                                           (2, 4, 1, 4000 * k), (3, 4, 1, 2000 * k))]
    jobs += [(["random", n, t, r, 600 * k, rng.randrange(1, 10 ** 6)], None)
             for n, t, r in ((1, 3, 3), (1, 5, 2), (2, 4, 3), (2, 5, 2), (3, 6, 3), (4, 7, 2), (1, 8, 1), (5, 6, 2))]
    with ThreadPoolExecutor(8) as pool:
        res = list(pool.map(lambda j: sem(exe, *j), jobs))
    runs = {}
    lost = 0
    for (args, text), r in zip(jobs, res):
        if r is None or r[0] not in (0, 3, 4):
            raise bp.ToolError("the harness failed on %s: %s" % (args, r and r[1][-3:]))
        for ln in r[1]:
            if ln.startswith("#"):
                continue
            head, ev, end = ln.split(" | ") if ln.count(" | ") == 2 else (ln.split(" | ")[0], "", ln.split("| ")[-1])
            v.add(runs_under_schedules=1)
            if end == "lost":       # something else than wait() and wake_one(): only the kernel's schedules say anything then
                lost += 1
                continue
            runs.setdefault((head, ev, end), (args, text))
    v.add(distinct_runs=len(runs), not_controllable=lost, design_steps_not_replayed=uncovered)
    judge(v, runs)
    # Real threads
    big = 8 if bp.QUICK else 80
    for n, t, r in ((1, 2, 20000), (1, 8, 4000), (2, 3, 10000), (2, 8, 5000), (3, 16, 2000), (7, 8, 5000)):
        got = sem(exe, ["stress", n, t, r * big // 4], timeout=800)
        if got is None or got[0] or not got[1]:
            raise bp.ToolError("stress failed: %s" % (got,))
        m = re.match(r"stress \d+ \d+ \d+ most (\d+) (\w+)", got[1][0])
        v.add(stress_operations=t * r * big // 4)
        if int(m[1]) > n:
            v.violation("limit/stress", what="%s of %d allowed operations at once (threads %d)" % (m[1], n, t))
        if m[2] != "done":
            v.violation("forgotten/stress", what="operations never got to run: N %d, threads %d" % (n, t))
    for funs in (1, 7, 64, 400):
        got = sem(exe, ["each", funs], timeout=200)
        if got is None or got[0] or not got[1]:
            raise bp.ToolError("each failed: %s" % (got,))
        if "each %d done" % funs not in got[1] or "each %d results %d distinct %d" % (funs, funs, funs) not in got[1]:
            v.violation("each", what="concurrently() on %d functions: %s" % (funs, got[1]))


def judge(v, runs):
    keys = sorted(runs)
    data = []
    for head, ev, end in keys:
        n, t, r = map(int, head.split())
        data.append({"n": n, "threads": t, "rounds": r, "ev": [{"k": x[0], "t": int(x[1:])} for x in ev.split()], "end": end})
    d = os.path.join(bp.scratch(), "limiter.json")
    with open(d, "w") as fh:
        json.dump(data, fh)
    r = bp.tlc("LimiterTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": d})
    if not r.ok:
        raise bp.ToolError("judging the runs failed: " + r.out[-2000:])
    v.add(states=r.distinct, transitions=r.states, traces_validated_against_impl=len(keys))
    for k in keys[:2]:
        v.sample({"run": list(k)})
    for ln in re.findall(r'^"(\{.*\})"$', r.out, re.M):
        f = json.loads(ln.replace('\\"', '"'))
        k = keys[f["run"] - 1]
        v.violation("forgotten" if "never" in f["what"] else "limit", how=runs[k], run=k,
                    what="%s: N=%s threads=%s rounds=%s: %s; after event %d" % (f["what"], *k[0].split(), k[1:], f["i"]))
