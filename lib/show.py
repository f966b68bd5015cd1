"""Run one script and print its events: show.py profile-seed [from [to]]"""
import json, os, sys
import bp, histories
sid = sys.argv[1]
o = bp.scratch()
if os.path.exists(sid):
    r = (0, sid)
else:
    prof, seed = sid.rsplit("-", 1)
    r = histories.one((prof, int(seed), bp.build_binary(), bp.build_bptrace(), o))
    if r[3]: print(r[3])
t = json.load(open(r[1]))
a, b = int(sys.argv[2]) if len(sys.argv) > 2 else 0, int(sys.argv[3]) if len(sys.argv) > 3 else 999
prev = None
for i, e in enumerate(t["ev"]):
    if a <= i <= b:
        print(i, e["op"], e.get("repo", ""), e.get("cw", ""), e.get("cmd", ""), "rc", e.get("rc"), e.get("err"), e.get("kill", ""))
        for k, v in e["post"].items():
            if prev and prev[k] != v:
                if k == "r":
                    for x in v:
                        if prev["r"].get(x) != v[x]:
                            R = dict(t["X"]["rs"][v[x]]); R.pop("raw")
                            print("      ", x, v[x], json.dumps(R))
                            for p in R["packs"]: print("           ", p, [(m["y"][0]+m["b"]) for m in t["X"]["mans"][t["X"]["packs"][p]["man"]]][:12])
                            for p in R["idx"]: print("           ", p, t["X"]["idx"][p]["sup"], list(t["X"]["idx"][p]["packs"]))
                elif k == "cw":
                    for x in v:
                        if prev["cw"].get(x) != v[x]:
                            print("      ", x, v[x], list(t["X"]["cws"][v[x]].items()), t["X"]["wips"][v[x]]["listed"], t["X"]["wips"][v[x]]["packs"])
                else:
                    print("      ", k, prev[k], "->", v)
    prev = e["post"]
f, n, _ = histories.validate([r[1]], o, 0)
for x in f:
    print(x["step"], x["op"], x["tags"], x["what"], x["detail"][:1500])
