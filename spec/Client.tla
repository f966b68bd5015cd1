------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* What each backpak command must do, as a relation between the observed   *)
(* world before it, its arguments, its result and the world after it.      *)
(*                                                                         *)
(* X: tables of one script (see RepoSem, Trees). e: the event. A world is  *)
(* [r: repo -> R label, s: source-area tree, o: output-area tree,          *)
(*  cw: working dir -> label, misc: label].                                *)
(* g: ghost state  [want: repo -> snapshots that must stay restorable,     *)
(*                  hurt: repos damaged on purpose,                        *)
(*                  crashed: repo -> commands killed on it,                *)
(*                  left: working dir -> interrupted command's leftovers]  *)
(*                                                                         *)
(* Each contract is a set of failures <<tags, name, detail>>: empty when   *)
(* the event is allowed. Tags are the properties the clause belongs to.    *)
(***************************************************************************)
EXTENDS Trees, RepoSem

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Bytes(X, S) == SumOver(X.len, S)

No == {}
Clause(tags, name, ok, detail) == IF ok THEN {} ELSE {<<tags, name, ToString(detail)>>}

AddOps == {"backup", "copy", "filter"}
ReadOps == {"ls", "dump", "cat", "diff", "snapshots", "usage", "check", "badname"}
OpTags(op) ==
  CASE op = "backup" -> {"C01", "C26"} [] op = "restore" -> {"C01", "C19"} [] op = "forget" -> {"C12"}
    [] op = "prune" -> {"C07", "C08"} [] op = "rebuild" -> {"C10"} [] op = "copy" -> {"C14"}
    [] op = "filter" -> {"C15"} [] op = "diff" -> {"C20"} [] op \in {"ls", "dump", "cat"} -> {"C21"}
    [] op = "snapshots" -> {"C21", "C27"} [] op = "usage" -> {"C27"} [] op = "check" -> {"C18"}
    [] op = "badname" -> {"C13"} [] OTHER -> {}
(* Keeping data while (and after) running this command is whose business? *)
KeepTags(op) == {"C01", "C09"} \cup
  (CASE op \in AddOps -> {"C04"} [] op = "prune" -> {"C07"} [] op = "rebuild" -> {"C10"} [] op = "forget" -> {"C12"}
     [] OTHER -> {}) \cup (IF op = "copy" THEN {"C14"} ELSE IF op = "filter" THEN {"C15"} ELSE {})
(* A command that doesn't work on a repository where others were killed breaks their promise. *)
AfterTags(g, repo) == IF repo \notin DOMAIN g.crashed THEN {} ELSE
  UNION {CASE c \in AddOps -> {"C04", "C09"} [] c = "prune" -> {"C07", "C09"} [] c = "fault" -> {"C24"} [] c = "conc" -> {"C11"} [] OTHER -> {"C10", "C09"} : c \in g.crashed[repo]}

Hangs(e) == e.rc = 124
(* It didn't get to its end: killed, or gave up because a file-system operation was made to fail. *)
Killed(e) == e.killed \/ (e.faulty /\ e.rc # 0)

(* What configuration files say: local skips replace global ones, those of the command line add to them. *)
Pats(e) == LET c == IF ~e.conf.g.on THEN <<>> ELSE IF e.conf.l.on THEN e.conf.l.skips ELSE e.conf.g.skips IN c \o e.pats
Deref(e) == e.deref = "L" \/ (e.deref = "" /\ e.conf.g.on /\ e.conf.g.deref)
Out(e) == IF e.out # "" \/ ~e.conf.g.on THEN e.out
          ELSE IF e.conf.l.on /\ e.conf.l.out # "" THEN e.conf.l.out ELSE e.conf.g.out

(* A snapshot that is damaged in the repository may still be whole in the cache. *)
Named(X, g, pre, e, arg) ==
  LET R == X.rs[pre.r[e.repo]]  m == Resolve(X, R, arg)
  IN  IF m = {} /\ e.repo \in g.hurt /\ DOMAIN X.caches[pre.cache].files # {} /\ e.rc = 0
      THEN Resolve(X, X.rs[g.base[e.repo]], arg) ELSE m

RR(X, w, repo) == X.rs[w.r[repo]]
World(X, w) == X.trees[w.s] @@ X.trees[w.o]

(***************************************************************************)
(* Clauses for every event.                                                *)
(***************************************************************************)
(* What must hold of a repository's visible state R1 at any instant during and after a command that started at R0. *)
Kept(X, e, R0, R1, g, repo, removed, x) ==
  LET avail == Avail(X, R1)
      mustHave == (IF repo \in DOMAIN g.want THEN g.want[repo] ELSE {}) \ removed
      lying == LyingPacks(X, R1)
      T == KeepTags(e.op) \cup x
  IN  Clause(T \cup {"C06"}, "broken object under a final name", Rng(R1.bad) \subseteq Rng(R0.bad), R1.bad) \cup
      Clause(T, "snapshot lost", mustHave \subseteq Snaps(R1), mustHave \ Snaps(R1)) \cup
      (IF repo \in g.hurt THEN No ELSE
        Clause(T, "snapshot not restorable any more",
               \A s \in mustHave \cap Snaps(R1) : Recoverable(X, R1, s, avail),
               {s \in mustHave \cap Snaps(R1) : ~Recoverable(X, R1, s, avail)}) \cup
        Clause(T \cup {"C06"} \cup (IF e.op = "copy" THEN {"C14"} ELSE {}), "visible snapshot without its data",
               \A s \in Snaps(R1) \ mustHave : Recoverable(X, R1, s, avail),
               {s \in Snaps(R1) \ mustHave : ~Recoverable(X, R1, s, avail)}) \cup
        Clause(T \cup {"C06"}, "index lists packs that aren't there as listed", lying = {}, lying) \cup
        Clause({"C06"} \cup x \cup (IF e.op = "prune" THEN {"C07"} ELSE {}), "a visible index came to list packs that aren't there as listed",
               Dangling(X, R1) \subseteq Dangling(X, R0), Dangling(X, R1) \ Dangling(X, R0)))

RepoKept(X, e, pre, post, g, repo, removed) ==
  LET R0 == RR(X, pre, repo)  R1 == RR(X, post, repo)
  IN  IF pre.r[repo] = post.r[repo] /\ repo \notin g.fresh THEN No
      ELSE Kept(X, e, R0, R1, g, repo, removed, {}) \cup
           Clause({"C04", "C06", "C09"} \cup OpTags(e.op), "configuration changed", R0.cfg = R1.cfg, repo)

(* The states it went through on the way (e.steps, from the command's file-system operations). *)
Instants(X, e, pre, g, repo, removed) ==
  LET R0 == RR(X, pre, repo)
      could == {s \in Snaps(R0) : Recoverable(X, R0, s, Avail(X, R0))}
  IN  UNION {LET st == e.steps[i]  R1 == X.rs[st.r]
             IN  {<<f[1], f[2] \o " (at one instant)", ToString(<<i, st.ev, st.name>>) \o f[3]>> :
                    f \in Kept(X, e, R0, R1, g, repo, removed, {}) \cup
                          (IF e.op = "rebuild" /\ repo \in g.hurt \ g.torn
                           THEN Clause({"C10"}, "a snapshot that was restorable isn't",
                                       \A s \in could : Recoverable(X, R1, s, Avail(X, R1)), could) ELSE No)} \cup
                 Clause({"C06"} \cup (IF e.op \in AddOps THEN {"C04"} ELSE {}), "published before it was flushed", st.synced, <<i, st.ev, st.name>>) \cup
                 Clause({"C06"} \cup OpTags(e.op), "wrote to a file that has its final name", st.ev # "write", <<i, st.name>>)
             : i \in DOMAIN e.steps}

ForgetSet(X, R, args) ==
  IF args = <<"DUPLICATES">> THEN Repeats(X, R) ELSE UNION {Resolve(X, R, args[i]) : i \in DOMAIN args}

(* A working directory still has everything an interrupted command needs to resume, and nothing more than before. *)
CwKept(X, e, c0, c1) ==
  c0 = c1 \/ (X.wips[c0].needs = X.wips[c1].needs /\
              (Rng(X.wips[c1].files) \subseteq Rng(X.wips[c0].files) \/ Killed(e) \/ e.faulty))

(* Nothing at all may have changed (refused, failed by rights, or a dry run). *)
Unchanged(T, name, X, e, pre, post) ==
  Clause(T, name, [pre EXCEPT !.cw = 0, !.cache = 0] = [post EXCEPT !.cw = 0, !.cache = 0] /\ DOMAIN pre.cw = DOMAIN post.cw
                  /\ \A c \in DOMAIN pre.cw : CwKept(X, e, pre.cw[c], post.cw[c]),
         [pre |-> pre, post |-> post])

(* What is in the cache is what is stored under that name in some repository; after new things went in, it is within
   its limit, give or take one object (a killed command may leave an object there that nobody keeps count of). *)
CacheOk(X, e, pre, post, g) ==
  LET C0 == X.caches[pre.cache].files  C1 == X.caches[post.cache].files
      repos == {r \in DOMAIN post.r : r \notin g.hurt}
      stored(n) == {X.rs[post.r[r]].plain[n] : r \in {r \in repos : n \in DOMAIN X.rs[post.r[r]].plain}}
      wrong == {n \in DOMAIN C1 : stored(n) # {} /\ C1[n].c \notin stored(n)}
      grown == \E n \in DOMAIN C1 : n \notin DOMAIN C0 \/ C0[n] # C1[n]
      sizes == [n \in DOMAIN C1 |-> C1[n].z]
      most == IF DOMAIN C1 = {} THEN 0 ELSE CHOOSE z \in {sizes[n] : n \in DOMAIN C1} : \A n \in DOMAIN C1 : sizes[n] <= z
  IN  IF C0 = C1 THEN No
      ELSE Clause({"C25"}, "the cache has something else than what is stored", g.hurt # {} \/ wrong = {}, wrong) \cup
           Clause({"C25"}, "the cache is over its limit",
                  grown /\ e.rc = 0 /\ DOMAIN g.crashed = {} => SumOver(sizes, DOMAIN C1) <= X.caches[post.cache].limit + most,
                  <<X.caches[post.cache].limit, sizes>>)

(* What the (stand-in for the) storage service noticed. *)
Cloud(e) ==
  Clause({"C28"}, "sent the storage service something wrong", e.cloud.wrong = <<>>, e.cloud.wrong) \cup
  Clause({"C23", "C28"}, "more connections at once than configured", e.cloud.over = <<>>, e.cloud.over)

Frame(X, e, pre, post, g) ==
  LET reading == e.op \in ReadOps
      dry == e.dry
      T == (IF reading \/ e.op = "restore" THEN {"C17"} ELSE {}) \cup (IF dry THEN {"C16"} ELSE {})
      own == {e.repo} \cup (IF e.op = "copy" THEN {e.to} ELSE {})
      quiet == reading \/ dry \/ e.op = "restore"
      T2 == T \cup OpTags(e.op)
      target == IF e.op = "copy" THEN e.to ELSE e.repo
  IN  (IF e.steps = <<>> THEN No
       ELSE Instants(X, e, pre, g, target, IF e.op = "forget" /\ ~e.dry THEN ForgetSet(X, RR(X, pre, target), e.args) ELSE {})) \cup
      Clause(T2 \cup {"C04", "C09"}, "a repository was written to", Rng(e.touched) \subseteq (IF quiet THEN {} ELSE {target}), e.touched) \cup
      UNION {RepoKept(X, e, pre, post, g, r, IF e.op = "forget" /\ r = e.repo /\ ~e.dry THEN ForgetSet(X, RR(X, pre, r), e.args) ELSE {}) : r \in DOMAIN post.r \cap DOMAIN pre.r} \cup
      Clause(T2 \cup {"C17"}, "wrote outside the places it may touch", pre.misc = post.misc, X.cws[post.misc]) \cup
      (IF quiet THEN Clause(T2, "repository changed", pre.r = post.r, <<pre.r, post.r>>)
       ELSE Clause(T2 \cup {"C04", "C09"}, "another repository changed",
                   \A r \in DOMAIN pre.r : (r \notin own \/ (e.op = "copy" /\ r = e.repo)) => post.r[r] = pre.r[r], e.op)) \cup
      (IF e.op = "restore" /\ ~dry THEN No
       ELSE Clause(T2 \cup {"C17"}, "source files changed", pre.s = post.s, TreeDiff(X.trees[post.s], X.trees[pre.s])) \cup
            Clause(T2 \cup {"C17"}, "output area changed", e.op = "dump" \/ pre.o = post.o, TreeDiff(X.trees[post.o], X.trees[pre.o]))) \cup
      Clause(T2 \cup {"C09"}, "another working directory changed",
             \A c \in DOMAIN pre.cw : c # e.cw => post.cw[c] = pre.cw[c], e.cw) \cup
      (IF quiet \/ e.op = "forget"
       THEN Clause(T2 \cup (IF quiet THEN {"C17"} \cap T ELSE {}), "working directory changed",
                   IF dry THEN CwKept(X, e, pre.cw[e.cw], post.cw[e.cw]) ELSE post.cw[e.cw] = pre.cw[e.cw],
                   <<X.cws[pre.cw[e.cw]], X.cws[post.cw[e.cw]]>>)
       ELSE No) \cup
      CacheOk(X, e, pre, post, g) \cup Cloud(e) \cup
      Clause({"C25"} \cup OpTags(e.op), "a filter program failed, but not the command", ~e.ffail \/ e.rc # 0, e.op) \cup
      Clause({"C22"} \cup OpTags(e.op), "hangs", ~Hangs(e), e.op)


(* Leftovers in the working directory may make it refuse, unless it can simply resume. *)
Resumable(g, pre, e) ==
  e.cw \in DOMAIN g.left /\
  LET l == g.left[e.cw] IN l.op = e.op /\ l.repo = (IF e.op = "copy" THEN e.to ELSE e.repo) /\ l.at = pre.r[l.repo]
(* no work in progress here *)
Clean(X, w, e) == X.wips[w.cw[e.cw]].idx = "" /\ X.wips[w.cw[e.cw]].packs = <<>>
Tidy(X, pre, post, e) == e.faulty \/ Rng(X.wips[post.cw[e.cw]].files) \subseteq Rng(X.wips[pre.cw[e.cw]].files)
MaySayNo(X, g, pre, e) ==
  /\ ~Clean(X, pre, e)
  /\ ~(e.cw \in DOMAIN g.left /\ LET l == g.left[e.cw] IN
         l.repo = (IF e.op = "copy" THEN e.to ELSE e.repo) /\ l.at = pre.r[l.repo])

Works(X, e, pre, post, g, repos, tags) ==
  IF Killed(e) \/ (repos \cap g.hurt # {}) \/ e.rc = 0 THEN No
  ELSE IF e.op \in {"backup", "copy", "prune", "rebuild"} /\ MaySayNo(X, g, pre, e) THEN No
  ELSE {<<tags \cup OpTags(e.op) \cup UNION {AfterTags(g, r) : r \in repos} \cup
            (IF e.op \in {"backup", "copy"} /\ Resumable(g, pre, e) THEN {"C05"} ELSE {}), "fails", ToString(<<e.op, e.rc, e.err>>)>>}

(***************************************************************************)
(* Adding data: what any of backup, copy, filter may do to a repository.   *)
(***************************************************************************)
Adds(X, e, pre, post, g, repo, need) ==
  LET R0 == RR(X, pre, repo)  R1 == RR(X, post, repo)
      newp == Packs(R1) \ Packs(R0)
      newi == Idx(R1) \ Idx(R0)
      had == Listed(X, R0)
      fresh == UNION {PackBlobs(X, p) : p \in newp}
      strict == Clean(X, pre, e) \/ Resumable(g, pre, e)
  IN  Clause({"C04", "C06", "C09"} \cup OpTags(e.op), "removed or replaced an object",
             Packs(R0) \subseteq Packs(R1) /\ Idx(R0) \subseteq Idx(R1) /\ Snaps(R0) \subseteq Snaps(R1),
             [packs |-> Packs(R0) \ Packs(R1), idx |-> Idx(R0) \ Idx(R1), snaps |-> Snaps(R0) \ Snaps(R1)]) \cup
      Clause({"C04", "C06"} \cup OpTags(e.op), "changed an object that was there",
             strict => \A f \in DOMAIN R0.raw \cap DOMAIN R1.raw : R0.raw[f] = R1.raw[f],   \* (else: the same pack, finished elsewhere)
             {f \in DOMAIN R0.raw \cap DOMAIN R1.raw : R0.raw[f] # R1.raw[f]}) \cup
      (IF repo \in g.hurt THEN No ELSE
       Clause({"C04", "C06", "C09"}, "something listed no longer is", had \subseteq Listed(X, R1), had \ Listed(X, R1)) \cup
       (IF ~strict THEN No ELSE
        Clause({"C03"} \cup (IF Resumable(g, pre, e) THEN {"C05"} ELSE {}), "stored something again",
               fresh \cap had = {}, fresh \cap had) \cup
        Clause({"C03", "C22"} \cup (IF Resumable(g, pre, e) THEN {"C05"} ELSE {}), "stored something twice",
               /\ Doubled(X, newp) = {}
               /\ Doubled(X, ListedPacks(X, R1) \cap Packs(R1)) \subseteq Doubled(X, ListedPacks(X, R0) \cap Packs(R0)),
               <<Doubled(X, newp), Doubled(X, ListedPacks(X, R1) \cap Packs(R1))>>) \cup
        (IF Clean(X, pre, e) /\ ~Killed(e) /\ e.rc = 0 THEN Clause({"C03"}, "stored something no snapshot needs", fresh \subseteq need, fresh \ need) ELSE No)) \cup
       (IF ~(strict /\ Killed(e) /\ e.op # "filter") THEN No ELSE
        LET wip == Rng(X.wips[post.cw[e.cw]].listed)
            made == Rng(X.wips[post.cw[e.cw]].packs) \ Rng(X.wips[pre.cw[e.cw]].packs)
        IN  Clause({"C05"}, "finished packs were not noted for resuming",
                   Cardinality(newp \ (wip \cup ListedPacks(X, R1))) <= 4 /\ Cardinality(made \ wip) <= 4,
                   <<newp \ (wip \cup ListedPacks(X, R1)), made \ wip>>)) \cup
       (IF Killed(e) \/ e.rc # 0 THEN No ELSE
        Clause({"C22", "C06", "C05"}, "a stored pack is in no index", newp \subseteq ListedPacks(X, R1), newp \ ListedPacks(X, R1)) \cup
        Clause({"C03"}, "more than one index", Cardinality(newi) <= 1, newi) \cup
        (IF Clean(X, pre, e) THEN Clause({"C03"}, "an index for no packs",
                                           newi = {} \/ ~(ListedPacks(X, R1) \subseteq ListedPacks(X, R0)), newi) ELSE No) \cup
        Clause({"C05"} \cup OpTags(e.op) \cup (IF e.op = "filter" THEN {"C16"} ELSE {}), "left files behind in the working directory",
               IF e.faulty THEN TRUE
               ELSE IF Clean(X, pre, e) THEN Tidy(X, pre, post, e)
               ELSE strict => X.wips[post.cw[e.cw]].idx = "" /\
                              Rng(X.wips[post.cw[e.cw]].packs) \cap Rng(X.wips[pre.cw[e.cw]].listed) = {},
               <<X.cws[pre.cw[e.cw]], X.cws[post.cw[e.cw]]>>)))

NewSnaps(X, pre, post, repo) == Snaps(RR(X, post, repo)) \ Snaps(RR(X, pre, repo))

(***************************************************************************)
(* backup                                                                  *)
(***************************************************************************)
SamePaths(X, R, paths) == {s \in Snaps(R) : Rng(X.snaps[s].paths) = paths}

(* Where the recorded tree differs from what was on disk, not counting a file recorded as in an earlier
   snapshot of the same paths that had the same size and mtime. *)
Misrecorded(X, R0, paths, T, E) ==
  {p \in TreeDiff(T, E) :
     ~(/\ p \in DOMAIN T /\ p \in DOMAIN E /\ T[p].k = "f" /\ E[p].k = "f"
       /\ [T[p] EXCEPT !.c = E[p].c] = E[p]
       /\ \E s \in SamePaths(X, R0, paths) :
             X.snaps[s].tree # "?" /\
             LET O == X.trees[X.snaps[s].tree] IN
               p \in DOMAIN O /\ O[p].k = "f" /\ O[p].z = E[p].z /\ O[p].t = E[p].t /\ O[p].c = T[p].c)}

Backup(X, e, pre, post, g) ==
  LET paths == Rng(e.paths)
      F == IF Deref(e) THEN X.trees[e.L] ELSE World(X, pre)
      vis == Visited(F, paths, Pats(e))
      ok == /\ paths \subseteq DOMAIN F
            /\ \A p, q \in paths : p # q => Base(p) # Base(q)
            /\ \A q \in vis : F[q].k # "?"
      R0 == RR(X, pre, e.repo)  R1 == RR(X, post, e.repo)
      E == BackupTree(F, paths, Pats(e))
      new == NewSnaps(X, pre, post, e.repo)
      author == IF e.author = "" THEN e.host ELSE e.author
      attrs(s) == X.snaps[s].author = author /\ X.snaps[s].tags = e.tags /\ Rng(X.snaps[s].paths) = paths
      tree(s) == X.trees[X.snaps[s].tree]
      clean(s) == X.snaps[s].tree # "?" /\ Misrecorded(X, R0, paths, tree(s), E) = {}
      exact(s) == X.snaps[s].tree # "?" /\ TreeDiff(tree(s), E) = {}
      last == Newest(X, R0)
      sameish == \E s \in last : attrs(s) /\ clean(s)
      sameexact == \E s \in last : attrs(s) /\ exact(s)
      empty == DOMAIN E = {}
      CT == {"C01", "C26"} \cup (IF SamePaths(X, R0, paths) # {} THEN {"C02"} ELSE {}) \cup
            (IF Resumable(g, pre, e) THEN {"C05"} ELSE {})
  IN  IF ~ok
      THEN Clause({"C26"}, "should have been refused", e.rc # 0, e.paths) \cup
           Unchanged({"C26"}, "refused, but changed something", X, e, pre, post)
      ELSE IF e.dry
      THEN Unchanged({"C16"}, "dry run changed something", X, e, pre, post) \cup Works(X, e, pre, post, g, {e.repo}, {"C16"})
      ELSE
      Works(X, e, pre, post, g, {e.repo}, {}) \cup
      Adds(X, e, pre, post, g, e.repo, UNION {Reach(X, s) : s \in new}) \cup
      (IF Killed(e) \/ e.rc # 0
       THEN Clause({"C04"} \cup CT, "recorded wrongly though killed",
                   Cardinality(new) <= 1 /\ \A s \in new : attrs(s) /\ clean(s), new)
       ELSE Clause({"C03"}, "nothing changed, but it was recorded again",
                   (~e.repeat /\ ((empty /\ ~e.empty) \/ (sameexact /\ ~empty))) => new = {}, new) \cup
            Clause({"C03"}, "nothing changed, but data was stored",
                   ((empty \/ (sameexact /\ Avail(X, R0) = Listed(X, R0))) /\ Clean(X, pre, e))
                      => Packs(R0) = Packs(R1) /\ Idx(R0) = Idx(R1), <<>>) \cup
            Clause({"C01", "C09"} \cup (IF e.repeat THEN {"C03"} ELSE {}), "succeeded without a snapshot",
                   new # {} \/ (empty /\ ~e.empty) \/ (sameish /\ ~e.repeat), e.paths) \cup
            Clause({"C01", "C03"}, "more than one snapshot", Cardinality(new) <= 1, new) \cup
            Clause({"C01", "C21"} \cup (IF Resumable(g, pre, e) THEN {"C05"} ELSE {}), "wrong author, tags or paths",
                   \A s \in new : attrs(s), [s \in new |-> X.snaps[s]]) \cup
            Clause(CT, "recorded a different tree", \A s \in new : clean(s),
                   [s \in new |-> IF X.snaps[s].tree = "?" THEN {<<"?">>} ELSE
                       {<<p, IF p \in DOMAIN tree(s) THEN <<tree(s)[p]>> ELSE <<>>, IF p \in DOMAIN E THEN <<E[p]>> ELSE <<>>>> :
                          p \in Misrecorded(X, R0, paths, tree(s), E)}]) \cup
            Clause({"C01", "C13"}, "the snapshot's time isn't when it was made", \A s \in new : s \in Rng(e.timely) /\ X.snaps[s].tz = e.zone,
                   [s \in new |-> <<X.snaps[s], e.zone, e.timely>>]))

(***************************************************************************)
(* copy, filter-snapshot                                                   *)
(***************************************************************************)
Copy(X, e, pre, post, g) ==
  LET S == RR(X, pre, e.repo)  D0 == RR(X, pre, e.to)  D1 == RR(X, post, e.to)
      named == [i \in DOMAIN e.args |-> Resolve(X, S, e.args[i])]
      ok == \A i \in DOMAIN e.args : named[i] # {}
      sel == IF e.all THEN Snaps(S) ELSE UNION {named[i] : i \in DOMAIN e.args}
      want(s) == SkipTree(X.trees[X.snaps[s].tree], Pats(e))
      whole(s) == DOMAIN want(s) = DOMAIN X.trees[X.snaps[s].tree]
      attr(s) == [time |-> X.snaps[s].time, tz |-> X.snaps[s].tz, author |-> X.snaps[s].author,
                  tags |-> X.snaps[s].tags, paths |-> X.snaps[s].paths]
      isCopy(d, s) == attr(d) = attr(s) /\ X.snaps[d].tree # "?" /\ X.trees[X.snaps[d].tree] = want(s) /\ (whole(s) => d = s)
      new == NewSnaps(X, pre, post, e.to)
      hurt == e.repo \in g.hurt \/ e.to \in g.hurt
  IN  IF ~ok
      THEN Clause({"C13", "C14"}, "copied an unnamed snapshot", e.rc # 0 \/ Killed(e), e.args) \cup
           Unchanged({"C13", "C14"}, "refused, but changed something", X, e, pre, post)
      ELSE IF e.dry
      THEN Unchanged({"C16"}, "dry run changed something", X, e, pre, post) \cup Works(X, e, pre, post, g, {e.repo, e.to}, {"C16"})
      ELSE IF hurt THEN No
      ELSE
      Works(X, e, pre, post, g, {e.repo, e.to}, {"C13"}) \cup
      Adds(X, e, pre, post, g, e.to, UNION {Reach(X, s) : s \in new}) \cup
      Clause({"C14"} \cup (IF Killed(e) THEN {"C04"} ELSE {}), "a new snapshot is no copy of a selected one",
             \A d \in new : \E s \in sel : isCopy(d, s),
             {d \in new : ~\E s \in sel : isCopy(d, s)}) \cup
      (IF Killed(e) \/ e.rc # 0 THEN No
       ELSE Clause({"C14"} \cup (IF Resumable(g, pre, e) THEN {"C05"} ELSE {}), "a selected snapshot was not copied",
                   \A s \in sel : \E d \in Snaps(D1) : isCopy(d, s),
                   {s \in sel : ~\E d \in Snaps(D1) : isCopy(d, s)}) \cup
            Clause({"C14", "C03"}, "copying again changed something",
                   (sel \subseteq Snaps(D0) /\ (\A s \in sel : whole(s)) /\ Clean(X, pre, e)) => pre.r[e.to] = post.r[e.to], sel))

Filter(X, e, pre, post, g) ==
  LET R0 == RR(X, pre, e.repo)  R1 == RR(X, post, e.repo)
      named == Resolve(X, R0, e.arg)
      s == CHOOSE s \in named : TRUE
      T == X.trees[X.snaps[s].tree]
      E == SkipTree(T, Pats(e))
      changed == DOMAIN E # DOMAIN T
      new == NewSnaps(X, pre, post, e.repo)
      meta(d) == IF e.keep
                 THEN /\ X.snaps[d].time = X.snaps[s].time /\ X.snaps[d].tz = X.snaps[s].tz
                      /\ X.snaps[d].author = X.snaps[s].author /\ X.snaps[d].tags = X.snaps[s].tags
                 ELSE /\ X.snaps[d].author = (IF e.author = "" THEN e.host ELSE e.author)
                      /\ X.snaps[d].tags = e.tags
                      /\ d \in Rng(e.timely) /\ X.snaps[d].tz = e.zone
      good(d) == X.snaps[d].paths = X.snaps[s].paths /\ meta(d) /\ X.snaps[d].tree # "?" /\ X.trees[X.snaps[d].tree] = E
      filesBefore == ChunksOf(X, s)
      stored == UNION {PackBlobs(X, p) : p \in Packs(R1) \ Packs(R0)}
      already == \E d \in Snaps(R0) : e.keep /\ good(d)
  IN  IF named = {}
      THEN Clause({"C13", "C15"}, "filtered an unnamed snapshot", e.rc # 0 \/ Killed(e), e.arg) \cup
           Unchanged({"C13", "C15"}, "refused, but changed something", X, e, pre, post)
      ELSE IF e.dry
      THEN Unchanged({"C16"}, "dry run changed something", X, e, pre, post) \cup Works(X, e, pre, post, g, {e.repo}, {"C16"})
      ELSE IF e.repo \in g.hurt THEN No
      ELSE
      Works(X, e, pre, post, g, {e.repo}, {"C13"}) \cup
      Adds(X, e, pre, post, g, e.repo, UNION {Reach(X, d) : d \in new}) \cup
      Clause({"C15"} \cup (IF Killed(e) THEN {"C04"} ELSE {}), "the new snapshot is not the filtered one",
             \A d \in new : good(d),
             [d \in new |-> <<X.snaps[d], IF X.snaps[d].tree = "?" THEN {} ELSE TreeDiff(X.trees[X.snaps[d].tree], E)>>]) \cup
      Clause({"C15"}, "file data was stored again", stored \cap (filesBefore \ DOMAIN X.tk) = {}, stored \cap filesBefore) \cup
      Clause({"C15"}, "nothing matched, but there is a new snapshot", changed \/ new = {}, new) \cup
      Clause({"C15"}, "more than one new snapshot", Cardinality(new) <= 1, new) \cup
      (IF Killed(e) \/ e.rc # 0 THEN No
       ELSE Clause({"C15"}, "no filtered snapshot", changed => (new # {} \/ already), e.arg))

(***************************************************************************)
(* forget, prune, rebuild-index                                            *)
(***************************************************************************)
Forget(X, e, pre, post, g) ==
  LET R0 == RR(X, pre, e.repo)  R1 == RR(X, post, e.repo)
      named == [i \in DOMAIN e.args |-> Resolve(X, R0, e.args[i])]
      dup == e.args = <<"DUPLICATES">>
      ok == dup \/ \A i \in DOMAIN e.args : named[i] # {}
      twice == \E i, j \in DOMAIN e.args : i # j /\ named[i] = named[j]
      out == IF e.dry THEN {} ELSE ForgetSet(X, R0, e.args)
  IN  Clause({"C12", "C13"}, "forgot something else than it was told to",
             Snaps(R1) = Snaps(R0) \ out \/ (Killed(e) /\ Snaps(R1) \subseteq Snaps(R0) /\ Snaps(R0) \ out \subseteq Snaps(R1)),
             [gone |-> Snaps(R0) \ Snaps(R1), told |-> out]) \cup
      Clause({"C12"} \cup (IF e.dry THEN {"C16"} ELSE {}), "packs or indexes changed",
             Packs(R1) = Packs(R0) /\ Idx(R1) = Idx(R0) /\ R1.junk = R0.junk, <<>>) \cup
      (IF Killed(e) THEN No
       ELSE IF ok THEN (IF twice THEN No ELSE Works(X, e, pre, post, g, {e.repo}, {"C13"}))
       ELSE Clause({"C12", "C13"}, "no error for a name that names nothing", e.rc # 0, e.args))

Prune(X, e, pre, post, g) ==
  LET R0 == RR(X, pre, e.repo)  R1 == RR(X, post, e.repo)
      used == ReachAll(X, R0)
      lp0 == ListedPacks(X, R0)  lp1 == ListedPacks(X, R1)
      l1 == Listed(X, R1)
      keep == {p \in lp0 \cap Packs(R0) : PackBlobs(X, p) \subseteq used}
      \* an empty directory's tree is not stored, but keeps a chunk with the same byte from being garbage
      used2 == used \cup Rng(X.a0b)
      keep2 == {p \in lp0 \cap Packs(R0) : PackBlobs(X, p) \subseteq used2}
      done(R) == Listed(X, R) = used
  IN  IF e.dry
      THEN Unchanged({"C16"}, "dry run changed something", X, e, pre, post) \cup Works(X, e, pre, post, g, {e.repo}, {"C16"})
      ELSE IF e.repo \in g.hurt THEN No
      ELSE
      Works(X, e, pre, post, g, {e.repo}, {}) \cup
      Clause({"C07", "C09"}, "the set of snapshots changed", Snaps(R1) = Snaps(R0), <<Snaps(R0) \ Snaps(R1), Snaps(R1) \ Snaps(R0)>>) \cup
      Clause({"C07"}, "data of snapshots no longer readable", used \subseteq Avail(X, R1), used \ Avail(X, R1)) \cup
      (IF Killed(e) \/ e.rc # 0 THEN No
       ELSE Clause({"C08"}, "garbage is still listed", l1 \subseteq used2, l1 \ used2) \cup
            Clause({"C08", "C22"}, "something is stored twice", Doubled(X, lp1) \subseteq Doubled(X, keep2), Doubled(X, lp1)) \cup
            Clause({"C08"}, "not exactly one index", Cardinality(Idx(R1)) = 1 \/ Idx(R1) = {} \/ pre.r[e.repo] = post.r[e.repo], Idx(R1)) \cup
            Clause({"C08"}, "packs it replaced are still there", (lp0 \ lp1) \cap Packs(R1) = {}, (lp0 \ lp1) \cap Packs(R1)) \cup
            Clause({"C08"}, "a pack in full use was not left alone", keep \subseteq Packs(R1) \cap lp1, keep \ lp1) \cup
            Clause({"C08"}, "new packs listed nowhere", Packs(R1) \ Packs(R0) \subseteq lp1, (Packs(R1) \ Packs(R0)) \ lp1) \cup
            Clause({"C08"}, "nothing to do, but it did something",
                   (done(R0) /\ Clean(X, pre, e)) => pre.r[e.repo] = post.r[e.repo], <<R0, R1>>) \cup
            Clause({"C08", "C16"}, "left files behind in the working directory", Clean(X, pre, e) => Tidy(X, pre, post, e),
                   X.cws[post.cw[e.cw]]))

Rebuild(X, e, pre, post, g) ==
  LET R0 == RR(X, pre, e.repo)  R1 == RR(X, post, e.repo)
      there == UNION {PackBlobs(X, p) : p \in Packs(R0)}
      could == {s \in Snaps(R0) : X.snaps[s].tree # "?" /\ Reach(X, s) \subseteq there}
      avail == Avail(X, R1)
  IN  IF e.dry
      THEN Unchanged({"C16"}, "dry run changed something", X, e, pre, post) \cup
           (IF Packs(R0) = {} THEN No ELSE Works(X, e, pre, post, g, {e.repo}, {"C16"}))
      ELSE IF e.repo \in g.torn THEN No
      ELSE
      (IF Killed(e) \/ e.rc = 0 \/ MaySayNo(X, g, pre, e) \/ Packs(R0) = {} THEN No
       ELSE {<<{"C10"} \cup AfterTags(g, e.repo), "fails", ToString(<<e.rc, e.err>>)>>}) \cup
      Clause({"C10", "C09"}, "packs or snapshots changed", Packs(R1) = Packs(R0) /\ Snaps(R1) = Snaps(R0), <<>>) \cup
      (IF Killed(e)
       THEN Clause({"C10"}, "a snapshot that was restorable no longer is",
                   \A s \in Snaps(R0) : Recoverable(X, R0, s, Avail(X, R0)) => Recoverable(X, R1, s, avail), <<>>)
       ELSE IF e.rc # 0 THEN No
       ELSE Clause({"C10"}, "not exactly one index", Cardinality(Idx(R1)) = 1, Idx(R1)) \cup
            Clause({"C10"}, "the index doesn't list exactly the packs and what they hold",
                   ListedPacks(X, R1) = Packs(R0) /\ LyingPacks(X, R1) = {},
                   <<Packs(R0) \ ListedPacks(X, R1), ListedPacks(X, R1) \ Packs(R0), LyingPacks(X, R1)>>) \cup
            Clause({"C10"}, "a snapshot whose data is there isn't restorable",
                   \A s \in could : Recoverable(X, R1, s, avail), {s \in could : ~Recoverable(X, R1, s, avail)}) \cup
            Clause({"C10", "C16"}, "left files behind in the working directory", Clean(X, pre, e) => Tidy(X, pre, post, e),
                   X.cws[post.cw[e.cw]]))

(***************************************************************************)
(* restore                                                                 *)
(***************************************************************************)
Exactly(lines, set) == Range(lines) = set /\ Len(lines) = Cardinality(set)

Restore(X, e, pre, post, g) ==
  LET R == RR(X, pre, e.repo)
      named == Named(X, g, pre, e, e.arg)
      s == CHOOSE s \in named : TRUE
      paths == Rng(X.snaps[s].paths)
      one == Cardinality(paths) = 1
      New == X.trees[X.snaps[s].tree]
      W0 == World(X, pre)  W1 == World(X, post)
      target(b) == IF Out(e) = "" THEN CHOOSE p \in paths : Base(p) = b
                   ELSE IF one THEN Out(e) ELSE Out(e) \o "/" \o b
      bases == {Base(p) : p \in paths}
      nested == Out(e) = "" /\ \E p, q \in paths : Below(p, q)
      Map(p) == target(Top(p)) \o Rest(p)
      \* a directory that another path of the snapshot brings
      comes(q) == \E c \in bases : /\ AtOrBelow(target(c), q)
                                   /\ LET p == c \o SubSeq(q, Len(target(c)) + 1, Len(q)) IN p \in DOMAIN New /\ New[p].k = "d"
      \* the target as the snapshot would name it
      view(W) == LET part(b) == LET t == target(b)
                                    qs == {q \in DOMAIN W : AtOrBelow(t, q)}
                                IN  [r \in {b \o SubSeq(q, Len(t) + 1, Len(q)) : q \in qs} |-> W[t \o SubSeq(r, Len(b) + 1, Len(r))]]
                     RECURSIVE all(_)
                     all(B) == IF B = {} THEN <<>> ELSE LET b == CHOOSE b \in B : TRUE IN part(b) @@ all(B \ {b})
                 IN  all(bases)
      Old == view(W0)
      inside(q) == \E b \in bases : AtOrBelow(target(b), q)
      parents == {Parent(target(b)) : b \in bases}
      outside(W) == [q \in {q \in DOMAIN W : ~inside(q)} |-> IF q \in parents THEN [W[q] EXCEPT !.t = "", !.a = ""] ELSE W[q]]
      ok == /\ named # {} /\ X.snaps[s].tree # "?"
            /\ IF Out(e) = "" THEN \A b \in bases : Parent(target(b)) \in DOMAIN W0 \/ comes(Parent(target(b))) ELSE Out(e) \in DOMAIN W0
      meta == e.times \/ e.perms
      lines == RestoreLines(Visible(Old), New, e.del, meta, Map)
      wrong == RestoreWrong(Old, New, view(W1), e.del, e.times, e.perms)
      T == {"C19"} \cup (IF Out(e) # "" /\ {p \in DOMAIN Old : p \notin bases} = {} /\ e.times /\ e.perms THEN {"C01"} ELSE {})
  IN  IF named = {}
      THEN Clause({"C13", "C19"}, "restored an unnamed snapshot", e.rc # 0, e.arg) \cup
           Unchanged({"C13", "C19"}, "refused, but changed something", X, e, pre, post)
      ELSE IF ~ok
      THEN Clause({"C19"}, "claims to have restored to where it can't", e.dry \/ e.rc # 0 \/ DOMAIN New = {}, Out(e))
      ELSE IF e.repo \in g.hurt
      THEN (IF e.dry \/ e.rc # 0 THEN No ELSE Clause({"C18"}, "restored wrong data from a damaged repository", wrong = {}, wrong))
      ELSE IF e.dry
      THEN Unchanged({"C16", "C19"}, "dry run changed something", X, e, pre, post) \cup
           Works(X, e, pre, post, g, {e.repo}, {"C16"}) \cup
           Clause({"C16", "C19"}, "dry run doesn't print what would change",
                  e.rc # 0 \/ (Range(e.lines) = lines /\ (nested \/ Len(e.lines) = Cardinality(lines))),
                  [printed |-> e.lines, should |-> lines])
      ELSE IF e.rc \notin {0, 124} /\ \E p \in DOMAIN New \cap DOMAIN Old : Old[p].k = "s"     \* a FIFO or so is in the way
      THEN Clause({"C19"}, "touched something outside the target", outside(W0) = outside(W1), TreeDiff(outside(W1), outside(W0)))
      ELSE IF nested /\ e.del THEN No      \* contradictory: what one path wants gone, the other may want
      ELSE
      Works(X, e, pre, post, g, {e.repo}, T \cup {"C13"}) \cup
      (IF e.rc # 0 THEN No
       ELSE Clause(T, "restored wrongly", wrong = {},
                   {<<p, IF p \in DOMAIN Old THEN <<Old[p]>> ELSE <<>>, IF p \in DOMAIN New THEN <<New[p]>> ELSE <<>>,
                      IF p \in DOMAIN view(W1) THEN <<view(W1)[p]>> ELSE <<>>>> : p \in wrong}) \cup
            Clause({"C19", "C16"}, "doesn't print what it changed",
                   IF nested THEN lines \subseteq Range(e.lines) ELSE Exactly(e.lines, lines), [printed |-> e.lines, should |-> lines])) \cup
      Clause({"C19"}, "touched something outside the target", outside(W0) = outside(W1),
             TreeDiff(outside(W1), outside(W0)))

(***************************************************************************)
(* Reading commands.                                                       *)
(***************************************************************************)

Ls(X, e, pre, post, g) ==
  LET R == RR(X, pre, e.repo)  named == Named(X, g, pre, e, e.arg)  s == CHOOSE s \in named : TRUE
  IN  IF named = {} THEN Clause({"C13", "C21"}, "listed an unnamed snapshot", e.rc # 0, e.arg)
      ELSE Works(X, e, pre, post, g, {e.repo}, {"C13"}) \cup
           (IF e.rc # 0 THEN No
            ELSE Clause(IF e.repo \in g.hurt THEN {"C18"} ELSE {"C21", "C13"}, "ls lists something else", Exactly(e.lines, LsLines(X.trees[X.snaps[s].tree])),
                        [printed |-> e.lines, should |-> LsLines(X.trees[X.snaps[s].tree])]))

Dump(X, e, pre, post, g) ==
  LET R == RR(X, pre, e.repo)  named == Named(X, g, pre, e, e.arg)  s == CHOOSE s \in named : TRUE
      T == X.trees[X.snaps[s].tree]
      n == T[e.path]
      kids == {q \in DOMAIN T : Parent(q) = e.path}
      dir == {e.path \o "/"} \cup {Line("", q, T[q]) : q \in {q \in kids : T[q].k # "l"}} \cup
             {q \o "-> " \o T[q].x : q \in {q \in kids : T[q].k = "l"}}
      dir2 == {e.path \o "/"} \cup {Line("", q, T[q]) : q \in kids}
      outside == {q \in DOMAIN World(X, pre) \cup DOMAIN World(X, post) :
                    /\ q # e.out /\ q # Parent(e.out)
                    /\ (q \notin DOMAIN World(X, pre) \/ q \notin DOMAIN World(X, post) \/ World(X, pre)[q] # World(X, post)[q])}
  IN  (IF named = {} THEN Clause({"C13", "C21"}, "dumped from an unnamed snapshot", e.rc # 0, e.arg)
       ELSE IF e.path \notin DOMAIN T THEN Clause({"C21"}, "no error for a path that isn't there", e.rc # 0, e.path)
       ELSE Works(X, e, pre, post, g, {e.repo}, {"C13"}) \cup
            (IF e.rc # 0 THEN No
             ELSE IF n.k = "f" THEN Clause(IF e.repo \in g.hurt THEN {"C18"} ELSE {"C21", "C01"}, "dumped other bytes", e.content = n.c, <<e.path, n, e.content>>)
             ELSE IF n.k = "l" THEN Clause({"C21"}, "dumped another target", Exactly(e.lines, {Line("", e.path, n)}), e.lines)
             ELSE Clause({"C21"}, "dumped another listing", Exactly(e.lines, dir) \/ Exactly(e.lines, dir2), <<e.lines, dir>>))) \cup
      Clause({"C17", "C21"}, "dump changed other files", outside = {}, outside)

CatSnap(X, e, pre, post, g) ==
  LET R == RR(X, pre, e.repo)  named == Named(X, g, pre, e, e.arg)  s == CHOOSE s \in named : TRUE
  IN  IF named = {} THEN Clause({"C13", "C21"}, "printed an unnamed snapshot", e.rc # 0, e.arg)
      ELSE Works(X, e, pre, post, g, {e.repo}, {"C13"}) \cup
           (IF e.rc # 0 THEN No
            ELSE Clause({"C21", "C13", "C18"}, "printed another snapshot",
                        /\ e.val.author = X.snaps[s].author /\ e.val.tags = X.snaps[s].tags
                        /\ e.val.paths = X.snaps[s].paths /\ e.val.tree = X.snaps[s].rootid
                        /\ e.val.time = X.snaps[s].time /\ e.val.tz = X.snaps[s].tz, <<e.val, X.snaps[s]>>))

(* cat pack / index / blob of something that is there (label e.obj) *)
CatObj(X, e, pre, post, g) ==
  LET R == RR(X, pre, e.repo)
      S == IF e.repo \in g.hurt THEN {R, X.rs[g.base[e.repo]]} ELSE {R}
      there == \E Q \in S : CASE e.what = "pack" -> e.obj \in Packs(Q) [] e.what = "index" -> e.obj \in Idx(Q)
                               [] e.what = "blob" -> e.obj \in Avail(X, Q)
  IN  IF ~there THEN Clause({"C21", "C18"}, "printed what isn't there", e.rc # 0, e.obj)
      ELSE Works(X, e, pre, post, g, {e.repo}, {}) \cup
           (IF e.rc # 0 THEN No
            ELSE Clause({"C21"} \cup (IF e.repo \in g.hurt THEN {"C18"} ELSE {}), "printed something else than what is stored",
                        CASE e.what = "pack" -> e.val = X.packs[e.obj].man
                          [] e.what = "index" -> e.val = [packs |-> X.idx[e.obj].packs, sup |-> X.idx[e.obj].sup]
                          [] e.what = "blob" -> e.val = e.obj, <<e.obj, e.val>>))

Diff(X, e, pre, post, g) ==
  LET R == RR(X, pre, e.repo)
      na == Resolve(X, R, e.a)  nb == Resolve(X, R, e.b)
      a == CHOOSE s \in na : TRUE  b == CHOOSE s \in nb : TRUE
      A == X.trees[X.snaps[a].tree]
      paths == Rng(X.snaps[a].paths)
      F == World(X, pre)
      B == IF e.fs THEN Assumed(BackupTree(F, paths, <<>>), A) ELSE X.trees[X.snaps[b].tree]
      ok == na # {} /\ (e.fs \/ nb # {})
      lines == DiffLines(A, B, e.meta)
  IN  IF ~ok THEN Clause({"C13", "C20"}, "compared an unnamed snapshot", e.rc # 0, <<e.a, e.b>>)
      ELSE IF e.repo \in g.hurt THEN No
      ELSE IF e.fs /\ ~(paths \subseteq DOMAIN F) THEN No
      ELSE Works(X, e, pre, post, g, {e.repo}, {"C13"}) \cup
           (IF e.rc # 0 THEN No
            ELSE Clause({"C20", "C13"}, "diff prints something else", Exactly(e.lines, lines), [printed |-> e.lines, should |-> lines]) \cup
                 Clause({"C20"}, "a snapshot differs from itself", (~e.fs /\ a = b) => e.lines = <<>>, e.lines))

(* check: passes exactly when everything a snapshot needs, and everything listed, is there and intact. *)
Check(X, e, pre, post, g) ==
  LET R == RR(X, pre, e.repo)
      avail == Avail(X, R)
      (* A snapshot whose file is gone is as good as forgotten; one that is there must be whole. *)
      affected == {s \in Snaps(R) : ~Recoverable(X, R, s, avail)} \cup LyingPacks(X, R) \cup (Rng(R.bad) \ DOMAIN X.packs)
  IN  IF e.repo \in g.hurt
      THEN Clause({"C18"}, "check passes though something is damaged",
                  e.rc # 0 \/ ~e.read \/ affected = {}, affected)
      ELSE Works(X, e, pre, post, g, {e.repo}, {})

(***************************************************************************)
(* snapshots and usage: what they print, in bytes (sizes are [n, exact]).  *)
(***************************************************************************)
(* Occurrences count: a chunk used by two files of a snapshot counts twice. *)
RECURSIVE TreeBytes(_, _)
RECURSIVE FileBytes(_, _)
SumSeq(q) == SumOver(q, DOMAIN q)
TreeBytes(X, b) == X.len[b] + SumSeq([i \in DOMAIN X.tk[b].t |-> TreeBytes(X, X.tk[b].t[i])])
FileBytes(X, b) == SumSeq([i \in DOMAIN X.tk[b].c |-> X.len[X.tk[b].c[i]]]) +
                   SumSeq([i \in DOMAIN X.tk[b].t |-> FileBytes(X, X.tk[b].t[i])])
Metadata(X, s) == IF X.snaps[s].root = "empty" THEN 0 ELSE TreeBytes(X, X.snaps[s].root)
FileData(X, s) == IF X.snaps[s].root = "empty" THEN 0 ELSE FileBytes(X, X.snaps[s].root)
Total(X, s) == Metadata(X, s) + FileData(X, s)
Introduced(X, R, s) == Bytes(X, Reach(X, s) \ UNION {Reach(X, t) : t \in Older(X, R, s)})

(* (An empty directory counts for nothing; X.a0 says that this is ambiguous because a file has the same one
   byte as the empty tree.)  Printed sizes are rounded: [lo, hi] is the range of byte counts that print so. *)
Shows(p, n) == p.lo <= n /\ n <= p.hi

SnapshotsCmd(X, e, pre, post, g) ==
  LET R == RR(X, pre, e.repo)
      named == [i \in DOMAIN e.args |-> Resolve(X, R, e.args[i])]
      ok == \A i \in DOMAIN e.args : named[i] # {}
      sel == IF e.args = <<>> THEN Snaps(R) ELSE UNION {named[i] : i \in DOMAIN e.args}
      all == Chrono(X, R)
      fwd == SelectSeq(all, LAMBDA s : s \in sel)
      order == IF e.reverse THEN [i \in 1..Len(fwd) |-> fwd[Len(fwd) + 1 - i]] ELSE fwd
      B == e.blocks
      prev(s) == LET o == Older(X, R, s) IN IF o = {} THEN <<>> ELSE X.trees[X.snaps[CHOOSE t \in o : \A u \in o : u = t \/ Before(X, u, t)].tree]
      sized(b) == LET s == b.id IN
                    /\ Shows(b.total, Total(X, s)) /\ Shows(b.files, FileData(X, s)) /\ Shows(b.meta, Metadata(X, s))
                    /\ Shows(b.new, Introduced(X, R, s)) /\ Shows(b.reused, Total(X, s) - Introduced(X, R, s))
  IN  IF ~ok THEN Clause({"C13", "C21"}, "listed an unnamed snapshot", e.rc # 0, e.args)
      ELSE IF e.repo \in g.hurt THEN No
      ELSE Works(X, e, pre, post, g, {e.repo}, {"C13"}) \cup
           (IF e.rc # 0 THEN No
            ELSE Clause({"C21", "C13"}, "not each snapshot once in time order",
                        [i \in DOMAIN B |-> B[i].id] = order, <<[i \in DOMAIN B |-> B[i].id], order>>) \cup
                 Clause({"C21"}, "wrong author, tags or paths",
                        \A i \in DOMAIN B : B[i].id \in Snaps(R) =>
                          LET s == X.snaps[B[i].id] IN B[i].author = s.author /\ B[i].tags = s.tags /\ B[i].paths = s.paths,
                        B) \cup
                 Clause({"C13", "C21"}, "wrong date", \A i \in DOMAIN B : B[i].id \in Snaps(R) => B[i].date = X.snaps[B[i].id].date,
                        [i \in DOMAIN B |-> <<B[i].date, X.snaps[B[i].id].date>>]) \cup
                 (IF e.sizes /\ ~X.a0
                  THEN Clause({"C27"}, "sizes don't add up", \A i \in DOMAIN B : B[i].id \in Snaps(R) => B[i].hassize /\ sized(B[i]),
                              [i \in DOMAIN B |-> <<B[i], Metadata(X, B[i].id), FileData(X, B[i].id), Introduced(X, R, B[i].id)>>])
                  ELSE No) \cup
                 (IF e.stat
                  THEN Clause({"C20", "C21"}, "--stat shows something else than the changes since the snapshot before",
                              \A i \in DOMAIN B : B[i].id \in Snaps(R) =>
                                Exactly(B[i].lines, DiffLines(prev(B[i].id), X.trees[X.snaps[B[i].id].tree], e.meta)),
                              [i \in DOMAIN B |-> B[i].lines])
                  ELSE No) \cup
                 (IF e.fsizes /\ ~X.a0
                  THEN Clause({"C27"}, "file sizes don't add up",
                              \A i \in DOMAIN B : B[i].id \in Snaps(R) =>
                                LET fs == B[i].fsz  T == X.trees[X.snaps[B[i].id].tree]
                                    old == UNION {Reach(X, t) : t \in Older(X, R, B[i].id)}
                                    lo == SumOver([j \in DOMAIN fs |-> fs[j].new.lo], DOMAIN fs)
                                    hi == SumOver([j \in DOMAIN fs |-> fs[j].new.hi], DOMAIN fs)
                                    chunks == ChunksOf(X, B[i].id)
                                    n == Bytes(X, chunks \ old)
                                IN  /\ \A j \in DOMAIN fs : fs[j].p \in DOMAIN T /\ T[fs[j].p].k = "f"
                                    /\ \A j, k \in DOMAIN fs : j # k => fs[j].p # fs[k].p
                                    /\ \A j \in DOMAIN fs : LET z == T[fs[j].p].z IN
                                          fs[j].new.lo + fs[j].reused.lo <= z /\ z <= fs[j].new.hi + fs[j].reused.hi
                                    /\ lo <= n /\ n <= hi,
                              [i \in DOMAIN B |-> B[i].fsz])
                  ELSE No))

Usage(X, e, pre, post, g) ==
  LET R == RR(X, pre, e.repo)
      used == ReachAll(X, R)
      uniq == Bytes(X, used)
      total == SumOver([s \in Snaps(R) |-> Total(X, s)], Snaps(R))
      lp == ListedPacks(X, R) \cap DOMAIN X.packs
      packed == SumOver([p \in lp |-> SumOver([i \in DOMAIN X.mans[X.packs[p].man] |-> X.mans[X.packs[p].man][i].n],
                                              DOMAIN X.mans[X.packs[p].man])], lp)
      u == e.u
  IN  IF e.repo \in g.hurt THEN No
      ELSE Works(X, e, pre, post, g, {e.repo}, {}) \cup
           (IF e.rc # 0 \/ X.a0 THEN No
            ELSE Clause({"C27"}, "usage counts wrong",
                        /\ u.nsnaps = Cardinality(Snaps(R))
                        /\ (Snaps(R) # {} => Shows(u.uniq, uniq) /\ Shows(u.reused, total - uniq))
                        /\ u.npacks = Cardinality(lp) /\ u.nidx = Cardinality(Idx(R))
                        /\ IF u.hasunused THEN Shows(u.unused, packed - uniq) /\ packed > uniq ELSE packed <= uniq
                        /\ Shows(u.snaps, R.sizes.s) /\ Shows(u.idx, R.sizes.i)
                        /\ Shows(u.packs, R.sizes.p)
                        /\ Shows(u.total, R.sizes.s + R.sizes.i + R.sizes.p),
                        [printed |-> u, uniq |-> uniq, total |-> total, packed |-> packed, npacks |-> Cardinality(lp),
                         nidx |-> Cardinality(Idx(R)), sizes |-> R.sizes]))

(***************************************************************************)
(* Commands at the same time (C11). e.cmds: what ran, each in a directory  *)
(* of its own, all of them writing to the same repository.                 *)
(***************************************************************************)
(* Readable whatever index a reader happens to look a blob up in. *)
Sound(X, R) ==
  LET lost == UNION {UNION {ManBlobs(X, X.idx[i].packs[p]) : p \in DOMAIN X.idx[i].packs \ Packs(R)} : i \in Live(X, R)}
  IN  Avail(X, R) \ lost

ConcTarget(c) == IF c.op = "copy" THEN c.to ELSE c.repo

(* Is s what command c was to make? *)
MadeBy(X, c, pre, post, s) ==
  LET d == X.snaps[s]  R0 == RR(X, pre, ConcTarget(c)) IN
  /\ d.tree # "?"
  /\ CASE c.op = "backup" ->
            LET F == IF Deref(c) THEN X.trees[c.L] ELSE World(X, pre)  paths == Rng(c.paths)
            IN  /\ d.author = (IF c.author = "" THEN c.host ELSE c.author) /\ d.tags = c.tags /\ Rng(d.paths) = paths
                /\ Misrecorded(X, R0, paths, X.trees[d.tree], BackupTree(F, paths, Pats(c))) = {}
       [] c.op = "copy" ->
            \E t \in (IF c.all THEN Snaps(RR(X, pre, c.repo)) ELSE Rng(c.args)) :
              LET o == X.snaps[t] IN
              /\ d.time = o.time /\ d.tz = o.tz /\ d.author = o.author /\ d.tags = o.tags /\ d.paths = o.paths
              /\ X.trees[d.tree] = SkipTree(X.trees[o.tree], Pats(c))
       [] c.op = "filter" ->
            LET o == X.snaps[c.arg] IN
            /\ d.paths = o.paths /\ X.trees[d.tree] = SkipTree(X.trees[o.tree], Pats(c))
            /\ IF c.keep THEN d.time = o.time /\ d.tz = o.tz /\ d.author = o.author /\ d.tags = o.tags
               ELSE d.author = (IF c.author = "" THEN c.host ELSE c.author) /\ d.tags = c.tags
       [] OTHER -> FALSE

(* It said it succeeded: did it? *)
Delivered(X, c, pre, post) ==
  LET R1 == RR(X, post, ConcTarget(c)) IN
  CASE c.op = "backup" ->
         LET F == IF Deref(c) THEN X.trees[c.L] ELSE World(X, pre)
         IN  DOMAIN BackupTree(F, Rng(c.paths), Pats(c)) = {} \/ \E s \in Snaps(R1) : MadeBy(X, c, pre, post, s)
    [] c.op = "copy" ->
         \A t \in (IF c.all THEN Snaps(RR(X, pre, c.repo)) ELSE Rng(c.args)) : \E s \in Snaps(R1) : MadeBy(X, [c EXCEPT !.all = FALSE, !.args = <<t>>], pre, post, s)
    [] c.op = "filter" ->
         DOMAIN SkipTree(X.trees[X.snaps[c.arg].tree], Pats(c)) = DOMAIN X.trees[X.snaps[c.arg].tree]
         \/ \E s \in Snaps(R1) : MadeBy(X, c, pre, post, s)
    [] OTHER -> TRUE

Conc(X, e, pre, post, g) ==
  LET cs == Rng(e.cmds)
      r == ConcTarget(e.cmds[1])
      R0 == RR(X, pre, r)  R1 == RR(X, post, r)
      pruning == r \in g.torn \/ \E c \in cs : c.op = "prune"
      both == \E c, d \in cs : c.op = "prune" /\ d.op = "rebuild"
      must == IF r \in DOMAIN g.want THEN g.want[r] ELSE {}
      new == Snaps(R1) \ Snaps(R0)
      avail == Sound(X, R1)
      still == IF both THEN Avail(X, R1) ELSE avail
      T == {"C11"} \cup (IF pruning THEN {"C07"} ELSE {})
      dirs == {c.cw : c \in cs}
  IN  Cloud(e) \cup Clause(T \cup {"C22"}, "hangs", \A c \in cs : ~Hangs(c), e.cmds) \cup
      Clause(T, "didn't fail cleanly", \A c \in cs : c.rc \in {0, 1, 124}, e.cmds) \cup
      Clause(T, "another repository changed", \A q \in DOMAIN pre.r : q # r => post.r[q] = pre.r[q], e.cmd) \cup
      Clause(T, "other files changed", pre.misc = post.misc /\ pre.s = post.s /\ pre.o = post.o /\
                  \A c \in DOMAIN pre.cw : c \notin dirs => post.cw[c] = pre.cw[c], e.cmd) \cup
      Clause(T \cup {"C06"}, "broken object under a final name", Rng(R1.bad) \subseteq Rng(R0.bad), R1.bad) \cup
      Clause(T, "configuration changed", R0.cfg = R1.cfg, r) \cup
      Clause(T \cup {"C09"}, "snapshot lost", Snaps(R0) \subseteq Snaps(R1), Snaps(R0) \ Snaps(R1)) \cup
      Clause(T \cup {"C09"}, "snapshot not restorable any more", \A s \in must : Recoverable(X, R1, s, still), {s \in must : ~Recoverable(X, R1, s, still)}) \cup
      (* Known: rebuild-index may list packs that prune is about to delete. Another rebuild-index mends it. *)
      Clause({"C11"}, "rebuild-index and prune leave an index of deleted packs", both => \A s \in must : Recoverable(X, R1, s, avail),
             {s \in must : ~Recoverable(X, R1, s, avail)}) \cup
      (IF pruning THEN No ELSE
       Clause(T \cup {"C06"}, "a new snapshot isn't restorable", \A s \in new : Recoverable(X, R1, s, avail), {s \in new : ~Recoverable(X, R1, s, avail)}) \cup
       Clause(T, "index lists packs that aren't there as listed", LyingPacks(X, R1) = {}, LyingPacks(X, R1)) \cup
       Clause(T, "removed packs", Packs(R0) \subseteq Packs(R1), Packs(R0) \ Packs(R1)) \cup
       Clause(T, "succeeded without having done it", \A c \in cs : c.rc = 0 => Delivered(X, c, pre, post), {c \in cs : c.rc = 0 /\ ~Delivered(X, c, pre, post)})) \cup
      Clause(T, "a new snapshot nobody asked for",
             \A s \in new : X.snaps[s].tree # "?" => \E c \in cs : MadeBy(X, c, pre, post, s), [s \in new |-> X.snaps[s]])

(***************************************************************************)
Contract(X, e, pre, post, g) ==
  CASE e.op = "backup" -> Backup(X, e, pre, post, g)
    [] e.op = "copy" -> Copy(X, e, pre, post, g)
    [] e.op = "filter" -> Filter(X, e, pre, post, g)
    [] e.op = "forget" -> Forget(X, e, pre, post, g)
    [] e.op = "prune" -> Prune(X, e, pre, post, g)
    [] e.op = "rebuild" -> Rebuild(X, e, pre, post, g)
    [] e.op = "restore" -> Restore(X, e, pre, post, g)
    [] e.op = "ls" -> Ls(X, e, pre, post, g)
    [] e.op = "dump" -> Dump(X, e, pre, post, g)
    [] e.op = "catsnap" -> CatSnap(X, e, pre, post, g)
    [] e.op = "cat" -> CatObj(X, e, pre, post, g)
    [] e.op = "diff" -> Diff(X, e, pre, post, g)
    [] e.op = "check" -> Check(X, e, pre, post, g)
    [] e.op = "snapshots" -> SnapshotsCmd(X, e, pre, post, g)
    [] e.op = "usage" -> Usage(X, e, pre, post, g)
    [] e.op = "conc" -> Conc(X, e, pre, post, g)
    [] OTHER -> No
=============================================================================
