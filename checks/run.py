#!/usr/bin/env python3
"""The one entry point of all checks: run.py Cxx. Tier and seed come from the environment."""
import json, os, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import bp

# Which kinds of histories exercise which property (weights), see lib/histories.py.
HIST = {
    "C01": dict(mixed=4, backup=3, restore=2, deref=1, copy=1, prune=1),
    "C02": dict(backup=8, mixed=2, dups=1),
    "C03": dict(dups=5, backup=3, copy=3, mixed=2),
    "C04": dict(crash=4, resume=3, traced=2, enum_add=4, filter=1),
    "C05": dict(resume=8, crash=2, enum_add=3),
    "C06": dict(crash=4, mixed=2, copy=1, filter=1, traced=4, enum_add=1),
    "C07": dict(prune=5, crash=2, traced=2, enum_prune=4, enum_rfault=2),
    "C08": dict(prune=8, dups=1, mixed=2, enum_prune=2),
    "C09": dict(crash=4, mixed=2, prune=2, resume=2, traced=1, enum_prune=2, enum_add=2),
    "C10": dict(rebuild=8, crash=1, traced=1, mixed=1, enum_prune=2),
    "C11": dict(conc=5, enum_conc=6),
    "C12": dict(forget=9, mixed=3),
    "C13": dict(forget=5, reads=4, mixed=2, forged=4),
    "C14": dict(copy=9, mixed=1, traced=1),
    "C15": dict(filter=9, mixed=2),
    "C16": dict(dry=9, traced=1, mixed=1),
    "C17": dict(reads=5, mixed=3, restore=2, dry=1, traced=1),
    "C18": dict(damage=9, mixed=1),
    "C19": dict(restore=9, mixed=1),
    "C20": dict(reads=8, mixed=1),
    "C21": dict(reads=8, mixed=1),
    "C22": dict(cores=7, dups=1, mixed=1, enum_fault=2),
    "C23": dict(b2=3),
    "C24": dict(faults=6, enum_fault=4, enum_rfault=4),
    "C25": dict(config=7, cachedamage=3),
    "C26": dict(deref=6, backup=4, user=3),
    "C27": dict(reads=9),
    "C28": dict(b2=7, enum_b2=4),
}
ENUM_COST = 9       # histories that one seed of an enumeration makes
QUICK_TOTAL, THOROUGH_TOTAL = 320, 6000
QUICK_CAP, THOROUGH_CAP = 150, 600


def histories_engine(v, prop):
    import histories
    mix = {k: w for k, w in HIST.get(prop, {}).items() if k in histories.PROFILES or k in histories.ENUMS}
    if not mix:
        return
    total = QUICK_TOTAL if bp.QUICK else THOROUGH_TOTAL
    s = sum(mix.values())
    want = {k: max(2, total * w // s // ENUM_COST) if k in histories.ENUMS else max(4, total * w // s) for k, w in mix.items()}
    fails, stats, paths = histories.explore(want, cap=QUICK_CAP if bp.QUICK else THOROUGH_CAP)
    v.add(states=stats["tlc_states"], transitions=stats["tlc_transitions"], traces_validated_against_impl=stats["histories"],
          commands_and_edits=stats["commands_and_edits"])
    v.add(history_kinds=want)
    for sid in sorted(paths)[:2]:
        with open(paths[sid]) as fh:
            ev = json.load(fh)["ev"]
        v.sample({"history": sid, "commands": ["%s -> %s" % (e.get("cmd", e["op"]), e.get("rc", "")) for e in ev][:12]})
    keep = os.path.join(bp.BUILD, "replays")
    for f in fails:
        if prop in f["tags"]:
            os.makedirs(keep, exist_ok=True)
            to = os.path.join(keep, "%s-%s.json" % (prop, f["script"]))
            if not os.path.exists(to):
                shutil.copy(paths[f["script"]], to)
            with open(to) as fh:
                ev = json.load(fh)["ev"]
            v.violation("%s/%s" % (f["op"], f["what"]), trace=to, step=f["step"],
                        what="history %s step %d: %s: %s" % (f["script"], f["step"], ev[f["step"]].get("cmd"), f["what"] + " " + str(f["detail"])[:600]),
                        history=[[e["op"], e.get("repo"), e.get("cw"), e.get("cmd"), e.get("rc"), e.get("kill")] for e in ev[:f["step"] + 1]])


LEVEL = {}
def sem_engine(v, prop):
    import semcheck
    semcheck.engine(v, prop)


def pipe_engine(v, prop):
    import pipecheck
    pipecheck.engine(v, prop)


ENGINES = {"C22": [pipe_engine], "C23": [sem_engine]}


def main():
    prop = sys.argv[1]
    v = bp.Verdict(prop, LEVEL.get(prop, "model_checking"))
    try:
        histories_engine(v, prop)
        for eng in ENGINES.get(prop, []):
            eng(v, prop)
        rc = v.finish()
    except bp.ToolError as e:
        print("ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
