"""C22: the pipeline's design (Pipeline.tla), every schedule and every point of failure of small runs, in TLC."""
import bp

CFG = "SPECIFICATION Spec\nCONSTANTS\n%s\nINVARIANTS %s\nPROPERTY Finishes\n"
INVS = "IndexComplete SnapshotComplete RemovalSafe WipThere WipLag Leftover Once InOrder AtEnd"


def model(v, **c):
    c = {**dict(NC=2, NT=2, NR=0, NS=0, Cap=0, Slots=4, MayFail=False, Removes=False), **c}
    r = bp.tlc("Pipeline", CFG % ("\n".join("%s = %s" % (k, str(x).upper() if x in (True, False) and k[0] in "MR" else x) for k, x in c.items()), INVS),
               timeout=800, heap="8g")
    v.add(states=r.distinct, transitions=r.states)
    return r


def engine(v, prop):
    runs = [dict(), dict(NR=1, NS=1, MayFail=True), dict(NS=1, MayFail=True, Removes=True), dict(Cap=1, MayFail=True)]
    if not bp.QUICK:
        runs += [dict(NC=a, NT=b, NR=r, NS=s, Cap=c, MayFail=True, Removes=rem)
                 for a, b, r, s, c, rem in ((3, 3, 1, 1, 0, False), (4, 2, 0, 1, 0, True), (2, 2, 2, 1, 1, False), (3, 2, 1, 0, 1, False), (2, 2, 0, 0, 2, True),
                                            (0, 2, 1, 0, 0, False), (0, 0, 2, 1, 0, False), (0, 0, 0, 0, 0, False), (4, 3, 0, 0, 0, False))]
    for c in runs:
        r = model(v, **c)
        if not r.ok:
            raise bp.ToolError("the pipeline's design fails with %s: %s" % (c, r.out[-1500:]))
    # What the model must be able to see: stages that can't all run at once wait for each other.
    r = model(v, Slots=3)
    if "Deadlock reached" not in r.out:
        raise bp.ToolError("the pipeline's model doesn't see its deadlock with three slots")
