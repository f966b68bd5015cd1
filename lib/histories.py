"""Random histories of the real binary, checked step by step by TLC against spec/ClientTrace.tla."""
import concurrent.futures as cf, json, multiprocessing as mp, os, random, signal, sys, time, traceback
import subprocess
import bp
from driver import Driver, Hung
from gen import Gen, SIZES

R2 = (("r1", None), ("r2", None))
BASE = dict(backup=8, edit=7, forget=2, prune=2, rebuild=1, copy=2, filter=1.5, restore=2, ls=.4, dump=.6, cat=.4, diff=.6,
            snapshots=.6, usage=.4, check=.5, loseindex=.3)


def W(**k):
    return {a: b for a, b in {**BASE, **k}.items() if b}


ONLY = {k: 0 for k in BASE}
CRASH = dict(kill_backup=3, kill_prune=2, kill_copy=1.5, kill_filter=.7, kill_rebuild=.7, kill_forget=.3)
FAULT = dict(fault_backup=3, fault_prune=2, fault_copy=1.5, fault_filter=.7, fault_rebuild=.7, fault_forget=.5, fault_restore=2,
             fault_ls=.2, fault_dump=.4, fault_diff=.3, fault_check=.4, fault_snapshots=.4, fault_usage=.3, fault_cat=.3)
READS = dict(ls=2, dump=4, cat=3, diff=3, snapshots=4, usage=1.5, check=.3, restore=.3)

# name -> (steps, weights, Gen options, repositories, working directories)
PROFILES = {
    "mixed": (16, W(), {}, R2, ("c1", "c2")),
    "crash": (16, W(**CRASH, backup=6, restore=.7, loseindex=.4), {"kill": 1}, R2, ("c1", "c2")),
    "resume": (14, W(**dict(ONLY, backup=5, copy=3, edit=4, kill_backup=6, kill_copy=4, forget=.5, prune=.5, restore=.5)),
               {"stealth": 0.03, "big": 0.1, "dry": 0.03}, R2, ("c1",)),
    "backup": (16, W(**dict(ONLY, backup=8, edit=9, restore=.6, prune=.2)), {"stealth": 0.1, "big": 0.06}, (("r1", None),), ("c1",)),
    "deref": (12, W(**dict(ONLY, backup=8, edit=7, restore=.6)), {"deref": 1, "goodlinks": 1, "pats": .4, "big": 0}, (("r1", None),), ("c1",)),
    "dups": (16, W(**dict(ONLY, backup=6, edit=3, copy=2, kill_backup=1, filter=1, prune=.5)), {"big": .12, "stealth": 0}, R2, ("c1",)),
    "prune": (16, W(**dict(ONLY, backup=6, edit=6, forget=5, prune=6, kill_prune=3, restore=.5, copy=.5, filter=.7, kill_backup=.5)),
              {"stealth": 0, "dry": .06}, (("r1", None),), ("c1", "c2")),
    "rebuild": (14, W(**dict(ONLY, backup=6, edit=5, forget=2, prune=1.5, kill_prune=1.5, rebuild=2, kill_rebuild=2, loseindex=4, restore=.5, kill_backup=1)),
                {"kill": 1, "stealth": 0}, (("r1", None),), ("c1", "c2")),
    "forget": (16, W(**dict(ONLY, backup=7, edit=3, forget=8, filter=2, copy=2, check=.5)), {"stealth": 0}, R2, ("c1",)),
    "forged": (18, W(**dict(ONLY, backup=4, edit=3, forge=5, forget=4, copy=2, filter=2, restore=1, prune=.4, check=.2, ls=1, dump=1, cat=4, diff=1.5, snapshots=6, usage=.3)),
               {"stealth": 0, "zones": .5, "special": False, "big": 0}, R2, ("c1",)),
    "copy": (15, W(**dict(ONLY, backup=6, edit=5, copy=9, forget=2, prune=1, restore=.6, kill_copy=1)), {"stealth": 0}, R2, ("c1", "c2")),
    "filter": (14, W(**dict(ONLY, backup=6, edit=5, filter=9, forget=1, prune=1, restore=.5, kill_filter=1)), {"stealth": 0}, (("r1", None),), ("c1",)),
    "restore": (16, W(**dict(ONLY, backup=4, edit=4, restore=8, filter=.5)), {"stealth": 0.05, "special": False, "big": .02}, (("r1", None),), ("c1",)),
    "dry": (15, W(**dict(ONLY, backup=6, edit=5, copy=3, prune=3, rebuild=2, filter=3, forget=3, restore=2, kill_backup=2, kill_copy=1.5, kill_prune=1)),
            {"dry": .5, "stealth": 0}, R2, ("c1",)),
    "traced": (15, W(**dict(ONLY, backup=6, edit=6, forget=3, prune=3, rebuild=1.5, copy=3, filter=2, loseindex=1, kill_backup=1)),
               {"stealth": 0, "traced": True}, R2, ("c1",)),
    "faults": (15, W(**dict(ONLY, backup=4, edit=5, forget=1, restore=.5, check=.3, **FAULT)), {"stealth": 0, "dry": .02}, R2, ("c1",)),
    "damage": (8, W(**dict(ONLY, backup=5, edit=4, filter=.7, forget=.4, copy=.5, prune=.3, damage=6)), {"stealth": 0, "special": False, "dry": 0, "big": .02},
               (("r1", None),), ("c1",)),
    "config": (16, W(**dict(ONLY, backup=7, edit=6, forget=1.5, prune=2, rebuild=.7, copy=2, filter=1.5, restore=2.5, ls=.3, dump=1, cat=.7, diff=.7,
                            snapshots=.4, usage=.3, check=1, reconf=1.5, kill_backup=1, kill_prune=.7, kill_copy=.5, ffail_backup=1, ffail_prune=.6,
                            ffail_copy=.5, ffail_restore=.6, ffail_check=.4, ffail_dump=.4, ffail_forget=.2, fault_backup=.5, fault_prune=.3, fault_dump=.3)),
               {"conf": True, "goodlinks": 1, "stealth": 0}, R2, ("c1",)),
    "cachedamage": (8, W(**dict(ONLY, backup=5, edit=4, filter=.7, restore=1, prune=.3, damage=6)),
                    {"conf": True, "goodlinks": 1, "stealth": 0, "special": False, "dry": 0, "big": .02}, (("r1", None),), ("c1",)),
    "conc": (14, W(**dict(ONLY, backup=4, edit=4, forget=3, conc=7, prune=1, rebuild=.4, copy=.7, filter=.5, kill_prune=.7, kill_backup=.5)),
             {"stealth": 0, "dry": 0, "big": .01}, R2, ("c1", "c2", "c3")),
    "cores": (8, W(**dict(ONLY, backup=6, edit=5, copy=2.5, prune=2.5, rebuild=1, forget=2, filter=1, restore=.5, check=.3, conc=.5, loseindex=.3,
                          fault_backup=2.5, fault_prune=1.5, fault_copy=1.5, ffail_backup=.3, ffail_copy=.3, kill_backup=.5, kill_prune=.3)),
              {"stealth": 0, "dry": .06, "cores": True, "goodlinks": 1, "big": .1, "special": False, "conf": True}, R2, ("c1", "c2")),
    "b2": (13, W(**dict(ONLY, backup=6, edit=5, copy=2, forget=2.5, prune=2.5, rebuild=1, filter=1, restore=1.5, dump=.4, check=.5, diff=.2,
                        snapshots=.3, usage=.2, cat=.2, kill_backup=.7, kill_prune=.3, kill_copy=.3, skill_backup=1, skill_prune=.7, skill_copy=.5,
                        skill_rebuild=.3, skill_forget=.2, srv_backup=1, srv_prune=.7, srv_copy=.5, srv_forget=.3, srv_rebuild=.3, srv_restore=.4,
                        srv_check=.2, srv_dump=.2, loseindex=.2)),
           {"stealth": 0, "special": False, "big": .02, "conf": True, "goodlinks": 1, "b2": True}, R2, ("c1", "c2")),
    "reads": (18, W(**dict(ONLY, backup=5, edit=4, filter=1, forget=.7, copy=.7, prune=.3, **READS)), {"stealth": 0.02, "a0": False}, R2, ("c1",)),
}


def one(args):
    profile, seed, binpath, bptrace, outdir = args
    steps, weights, opt, repos, cws = PROFILES[profile]
    sid = "%s-%d" % (profile, seed)
    root = os.path.join(outdir, "w." + sid)
    d = None
    try:
        rng = random.Random("%s/%d" % (profile, seed))
        os.makedirs(root)
        d = Driver(root, binpath + "-hooked" * bool(opt.get("b2")), bptrace, sid)
        with open(d.p("misc-file"), "w") as fh:
            fh.write("leave me alone")
        g = Gen(d, rng, **opt)
        d.traced = bool(opt.get("traced"))
        g.plant()
        d.start(cws, g.setup([(r, s or rng.choice(SIZES)) for r, s in repos]))
        try:
            g.run(steps, weights)
            g.finale()
        except Hung:
            pass
        path = os.path.join(outdir, sid + ".json")
        with open(path, "w") as fh:
            json.dump(d.trace(), fh)
        return sid, path, len(d.ev), None
    except Exception:
        return sid, None, 0, traceback.format_exc()
    finally:
        if d and d.srv:
            d.srv.stop()
        bp.rmtree(root)


STOP = mp.Value("b", 0)


# Enumerations: a random prelude, then one command interrupted at (nearly) every one of its file-system operations,
# each time from the same state, each time followed by other commands.
ENUMS = {
    # name -> (commands to interrupt, weights of what comes before, weights of what comes after, options)
    "enum_add": (["backup", "backup", "copy", "filter"], dict(backup=5, edit=5, forget=1, prune=.7, copy=1.5, filter=1),
                 dict(backup=3, edit=2, copy=1.5, prune=1, rebuild=.7, filter=.5, check=.3, restore=.5, forget=.3), {"big": .08}),
    "enum_prune": (["prune", "prune", "rebuild"], dict(backup=5, edit=5, forget=3, prune=.5, copy=.5, filter=1),
                   dict(backup=3, edit=2, prune=2, rebuild=1, forget=1, copy=.7, check=.3, restore=.5), {}),
    "enum_fault": (["backup", "prune", "copy", "restore", "rebuild", "filter", "forget"], dict(backup=5, edit=5, forget=2, prune=.7, copy=1, filter=1),
                   dict(backup=2, prune=1, check=1, restore=1, copy=.5), {}),
    "enum_rfault": (["prune", "backup", "prune", "copy", "filter", "prune", "rebuild", "restore"], dict(backup=5, edit=5, forget=1, prune=.3, copy=1, filter=1),
                    dict(backup=2, prune=1, check=1, restore=1, copy=.5), {}),
    # Each of the requests a command makes to (the stand-in for) B2 in turn is its last, or goes wrong.
    "enum_b2": (["backup", "prune", "copy", "backup", "rebuild", "forget", "backup", "restore", "filter", "prune"],
                dict(backup=5, edit=5, forget=2, prune=.5, copy=1, filter=.7), dict(backup=2, edit=1, forget=1, prune=2, check=1, restore=.7, copy=.5, rebuild=.5),
                {"b2": True, "conf": True, "goodlinks": 1}),
    # Two commands at the same time: the first is stopped after each of its operations in turn, the second goes on from there.
    "enum_conc": (["rebuild prune", "prune rebuild", "prune backup", "rebuild backup", "backup rebuild", "backup backup", "backup copy",
                   "copy rebuild", "filter rebuild", "rebuild rebuild", "prune copy", "backup prune", "filter prune"],
                  dict(backup=5, edit=5, forget=2, prune=.3, copy=.5, filter=1),
                  dict(backup=2, prune=1, check=1, restore=1, copy=.5), {}),
}


def split(k, m):
    """A schedule for two commands: the first makes k steps, the second m, then the first goes on to its end."""
    def pick(stopped):
        a, b = stopped.get(0), stopped.get(1)
        if a and (a[1] < k or not b or b[1] >= m):
            return 0
        return 1 if b else 0
    return pick


def put_back(root, saved):
    bp.rmtree(root)
    subprocess.run(["cp", "-a", saved, root], check=True)


def enum(args):
    """-> like one(), with a list of paths."""
    profile, seed, binpath, bptrace, outdir = args
    ops, before, after, opt = ENUMS[profile]
    sid = "%s-%d" % (profile, seed)
    root = os.path.join(outdir, "w." + sid)
    saved = os.path.join(outdir, "s." + sid)
    paths, n, d = [], 0, None
    try:
        rng = random.Random("%s/%d" % (profile, seed))
        os.makedirs(root)
        d = Driver(root, binpath + "-hooked" * bool(opt.get("b2")), bptrace, sid)
        with open(d.p("misc-file"), "w") as fh:
            fh.write("leave me alone")
        g = Gen(d, rng, stealth=0, dry=0, special=False, **opt)
        g.plant()
        d.start(("c1", "c2"), g.setup([(r, rng.choice(SIZES)) for r in ("r1", "r2")]))
        evs = []
        try:
            g.run(rng.choice([3, 5, 7]), before)
            g.edit()
            op = ops[seed % len(ops)]
            more = ["-R", "-D", "-m", "read,rdata,list"] if profile == "enum_rfault" else []
            if more and op in ("prune", "copy", "filter", "restore") and (seed // 8 + seed) % 2 == 0:
                more += ["-S", "/packs/"]
            if "prune" in op and profile in ("enum_conc", "enum_rfault", "enum_fault", "enum_prune", "enum_b2"):
                if rng.random() < .7:
                    for a in ("r1", "r2"):
                        g.sparse(a)
                g.do_forget()
                g.edit()
            put_back(saved, root)
            base, state, seen = len(d.ev), rng.getstate(), dict(g.seen)
            bucket = d.srv and d.srv.saved()
            total = None
            points = [0]
            for i in range(200):
                if i >= len(points) or STOP.value:
                    break
                rng.setstate(state)
                g.seen = dict(seen)
                d.traced = profile != "enum_b2"
                if profile == "enum_conc":
                    pass
                elif profile == "enum_b2":
                    d.next_srv = {} if points[i] == 0 else {"kill": (points[i], "after")} if (i + seed) % 3 == 0 else \
                        {"kill": (points[i], "before")} if (i + seed) % 6 == 1 else \
                        {"plan": {points[i]: ("503", "500after", "reset", "cut", "403", "resetafter", "404")[(i // 2 + seed) % 7]}, "slow": .01 * (i % 5 == 0)}
                elif points[i] == 0:
                    d.next_faults = more + ["-p", "999999:true"]
                elif profile == "enum_rfault":
                    d.next_faults = more + ["-f" if (i + seed) % 4 else "-F", "%d:%s" % (points[i], ("5", "13", "116")[i % 3])]
                elif profile == "enum_fault":
                    d.next_faults = ["-f" if (i + seed) % 3 else "-F", "%d:%s" % (points[i], ("28", "5", "13")[i % 3])]
                else:
                    d.next_kill = ("k" if i % 5 else "T", points[i])
                try:
                    if profile == "enum_conc":
                        k = points[i]
                        ev = d.conc(g.conc_parts(2, op.split()), split(k or 9999, 9999 if i % 3 else random.Random(i).randrange(1, 40)))
                        d.nev = sum(int(x.split()[1]) for x in ev["order"] if x[0] == "0")
                    else:
                        getattr(g, "do_" + op)()
                    d.next_faults, d.next_kill, d.next_srv = None, None, {}
                    if total is None:
                        total = d.nev if profile != "enum_b2" else d.srv.n
                        stride = max(1, -(-total // (10 if bp.QUICK else 120)))
                        points += list(range(1 + seed % stride, total + 1, stride))
                    e = d.ev[base]
                    rng.seed("%s/%d/%d" % (profile, seed, points[i]))
                    if e["op"] == op and profile != "enum_conc" and rng.random() < .5:      # the same command again
                        rng2 = rng.getstate()
                        rng.setstate(state)
                        getattr(g, "do_" + op)()
                        rng.setstate(rng2)
                    g.run(2, after)
                    g.finale()
                except Hung:
                    pass
                finally:
                    d.next_faults, d.next_kill, d.next_srv = None, None, {}
                evs.append(list(d.ev))
                n += len(d.ev)
                del d.ev[base:]
                put_back(root, saved)
                if d.srv:
                    d.srv.restore(bucket)
        except Hung:
            evs.append(d.ev)
        X = d.tb.dump()
        for i, ev in enumerate(evs):
            path = os.path.join(outdir, "%s.%d.json" % (sid, i))
            with open(path, "w") as fh:
                json.dump({"id": "%s.%d" % (sid, i), "X": X, "ev": ev}, fh)
            paths.append(("%s.%d" % (sid, i), path, len(ev)))
        return sid, paths, n, None
    except Exception:
        return sid, None, 0, traceback.format_exc()
    finally:
        if d and d.srv:
            d.srv.stop()
        bp.rmtree(root)
        bp.rmtree(saved)




def job(args):
    if STOP.value:
        return None, [], 0, None
    if args[0] in ENUMS:
        return enum(args)
    sid, path, n, err = one(args)
    return sid, [(sid, path, n)], n, err


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def validate(paths, outdir, n):
    shard = os.path.join(outdir, "shard%d.json" % n)
    with open(shard, "w") as fh:
        fh.write("[")
        for i, p in enumerate(paths):
            fh.write("," if i else "")
            with open(p) as f:
                fh.write(f.read())
        fh.write("]")
    r = bp.tlc("ClientTrace", CFG, env={"TRACE": shard}, workers=1, heap="2g")
    if not r.ok:
        raise bp.ToolError("TLC on %s: %s" % (paths, r.out[-3000:]))
    return [json.loads(l[1:]) for l in r.lines], r.distinct, r.states


def worker():
    signal.signal(signal.SIGTERM, signal.SIG_DFL)       # (a handler in Python wouldn't run if it's about to wait for a lock)


def explore(profiles, first=0, cap=600, nproc=None):
    """profiles: {name: count}. -> (failures, stats, scripts by id)"""
    binpath, bpt = bp.build_binary(), bp.build_bptrace()
    if "b2" in profiles or "enum_b2" in profiles:
        bp.build_binary(hooked=True)
    outdir = os.path.join(bp.scratch(), "h")
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    for name, n in profiles.items():
        jobs += [(name, bp.SEED * 100000 + first + i, binpath, bpt, outdir) for i in range(n)]
    random.Random(1).shuffle(jobs)
    STOP.value = 0
    t0, done, errs = time.time(), [], []
    nproc = nproc or bp.NCPU
    fails, states, trans = [], 0, 0
    with mp.Pool(nproc, worker) as pool, cf.ThreadPoolExecutor(max(2, nproc // 2)) as tp:
        futs, batch, nb = [], [], 0
        for sid, made, n, err in pool.imap_unordered(job, jobs):
            if err:
                errs.append((sid, err))
                continue
            done += made
            batch += [p for _, p, _ in made]
            while len(batch) >= 12 or sum(map(os.path.getsize, batch)) > 8 << 20:
                k, size = 0, 0
                while k < min(len(batch), 16) and (k == 0 or size < 8 << 20):
                    size += os.path.getsize(batch[k])
                    k += 1
                futs.append(tp.submit(validate, batch[:k], outdir, nb))
                batch, nb = batch[k:], nb + 1
            if time.time() - t0 > cap:
                STOP.value = 1      # what is not begun yet is not done
        pool.close()
        pool.join()
        if batch:
            futs.append(tp.submit(validate, batch, outdir, nb))
        for f in futs:
            x, s, n = f.result()
            trans += n
            fails += x
            states += s
    if errs:
        raise bp.ToolError("driver failed on %d scripts; first %s:\n%s" % (len(errs), errs[0][0], errs[0][1]))
    stats = {"histories": len(done), "commands_and_edits": sum(n for _, _, n in done), "tlc_states": states, "tlc_transitions": trans}
    return fails, stats, {sid: path for sid, path, _ in done}


if __name__ == "__main__":
    prof = {}
    for a in sys.argv[1:]:
        k, _, v = a.partition("=")
        prof[k] = int(v or 8)
    first = int(os.environ.get("FIRST", "0"))
    t = time.time()
    try:
        fails, stats, paths = explore(prof, first)
    except bp.ToolError as e:
        print(e)
        sys.exit(2)
    seen = {}
    os.makedirs("/tmp/fails", exist_ok=True)
    import shutil
    for f in fails:
        shutil.copy(paths[f["script"]], "/tmp/fails/")
        k = (f["op"], f["what"])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= int(os.environ.get("SHOW", "2")):
            print(f["script"], f["step"], f["op"], "".join(f["tags"]), f["what"], "\n    ", str(f["detail"])[:int(os.environ.get("LEN", "700"))])
            ev = json.load(open(paths[f["script"]]))["ev"][f["step"]]
            print("     $", ev.get("cmd"), "rc", ev.get("rc"), ev.get("err"), ev.get("kill", ""))
    print(seen)
    print(stats, "%.1f s" % (time.time() - t))
