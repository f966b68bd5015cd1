------------------------------ MODULE RepoSem ------------------------------
(***************************************************************************)
(* What a repository's files mean. X is the table of everything observed:  *)
(*   X.mans[m]   sequence of [y, n, b]: a pack's (or index entry's) listing *)
(*   X.packs[p]  [man, size]        X.idx[i]  [sup, packs: p -> m, size]    *)
(*   X.snaps[s]  [when, idrank, time, tz, author, tags, paths, root, tree,  *)
(*                size]             X.tk[b]   children of a tree blob       *)
(*   X.len[b]    length of a blob                                          *)
(* and R = X.rs[r] a repository: [packs, idx, snaps, bad, junk, cfg].      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}

Packs(R) == Rng(R.packs)
Idx(R) == Rng(R.idx)
Snaps(R) == Rng(R.snaps)

ManBlobs(X, m) == {X.mans[m][i].b : i \in DOMAIN X.mans[m]}
(* (An index may list a pack that never was: nothing is in it.) *)
PackBlobs(X, p) == IF p \in DOMAIN X.packs THEN ManBlobs(X, X.packs[p].man) ELSE {}

(* An index counts unless another visible index supersedes it. *)
Live(X, R) == LET sup == UNION {Rng(X.idx[i].sup) : i \in Idx(R)} IN {i \in Idx(R) : i \notin sup}

Listed(X, R) == UNION {UNION {ManBlobs(X, X.idx[i].packs[p]) : p \in DOMAIN X.idx[i].packs} : i \in Live(X, R)}
ListedPacks(X, R) == UNION {DOMAIN X.idx[i].packs : i \in Live(X, R)}

(* What can actually be read: listed, and in the pack it is listed in. *)
Avail(X, R) ==
  UNION {UNION {ManBlobs(X, X.idx[i].packs[p]) \cap PackBlobs(X, p) :
                  p \in DOMAIN X.idx[i].packs \cap Packs(R)} : i \in Live(X, R)}

(* Every listed pack is there with exactly the listed contents. *)
LyingPacks(X, R) ==
  {p \in ListedPacks(X, R) :
     p \notin Packs(R) \/ \E i \in Live(X, R) : p \in DOMAIN X.idx[i].packs /\ X.idx[i].packs[p] # X.packs[p].man}

(* The same for every index that is visible, also superseded ones. *)
Dangling(X, R) ==
  UNION {{<<i, p>> : p \in {p \in DOMAIN X.idx[i].packs : p \notin Packs(R) \/ X.idx[i].packs[p] # X.packs[p].man}} : i \in Idx(R)}

(* (A chunk may have the same bytes as a tree: only what is used as a tree is expanded.) *)
RECURSIVE TreesFrom(_, _, _)
TreesFrom(X, todo, seen) ==
  IF todo = {} THEN seen
  ELSE TreesFrom(X, UNION {Rng(X.tk[b].t) : b \in todo \cap DOMAIN X.tk} \ (seen \cup todo), seen \cup todo)
TreesOf(X, s) == IF X.snaps[s].root = "empty" THEN {} ELSE TreesFrom(X, {X.snaps[s].root}, {})
ChunksOf(X, s) == UNION {Rng(X.tk[b].c) : b \in TreesOf(X, s) \cap DOMAIN X.tk}
Reach(X, s) == TreesOf(X, s) \cup ChunksOf(X, s)
ReachAll(X, R) == UNION {Reach(X, s) : s \in Snaps(R)}

Recoverable(X, R, s, avail) == X.snaps[s].tree # "?" /\ Reach(X, s) \subseteq avail

(* Blobs that are in more than one of these packs, or more than once in one. *)
Doubled(X, ps) ==
  {p \in ps : \/ p \in DOMAIN X.packs /\ Cardinality(PackBlobs(X, p)) # Len(X.mans[X.packs[p].man])
              \/ \E q \in ps \ {p} : PackBlobs(X, p) \cap PackBlobs(X, q) # {}}

(***************************************************************************)
(* Time order, and names for snapshots.                                    *)
(***************************************************************************)
Before(X, a, b) == \/ X.snaps[a].when < X.snaps[b].when
                   \/ (X.snaps[a].when = X.snaps[b].when /\ X.snaps[a].idrank < X.snaps[b].idrank)
Newer(X, R, s) == {t \in Snaps(R) : Before(X, s, t)}
Older(X, R, s) == {t \in Snaps(R) : Before(X, t, s)}
Nth(X, R, n) == {s \in Snaps(R) : Cardinality(Newer(X, R, s)) = n}
Newest(X, R) == Nth(X, R, 0)
Chrono(X, R) == [i \in 1..Cardinality(Snaps(R)) |-> CHOOSE s \in Snaps(R) : Cardinality(Older(X, R, s)) = i - 1]

Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
RECURSIVE Number(_, _, _)
Number(str, i, acc) == IF i > Len(str) THEN acc
                       ELSE Number(str, i + 1, IF acc > 1000 THEN acc ELSE acc * 10 + Digit[SubSeq(str, i, i)])
AllDigits(str) == str # "" /\ \A i \in 1..Len(str) : SubSeq(str, i, i) \in DOMAIN Digit

(* The snapshots `arg` names: one, or none (an error). *)
Resolve(X, R, arg) ==
  LET after4 == SubSeq(arg, 5, Len(arg))
      isLast == Len(arg) >= 4 /\ SubSeq(arg, 1, 4) \in {"LAST", "HEAD"}
  IN  IF arg \in Snaps(R) THEN {arg}
      ELSE IF isLast /\ after4 = "" THEN Nth(X, R, 0)
      ELSE IF isLast /\ after4 = "~" THEN Nth(X, R, 1)
      ELSE IF isLast /\ SubSeq(after4, 1, 1) = "~" /\ AllDigits(SubSeq(after4, 2, Len(after4)))
           THEN Nth(X, R, Number(SubSeq(after4, 2, Len(after4)), 1, 0))
      ELSE IF Len(arg) < 4 THEN {}
      ELSE LET m == {s \in Snaps(R) : Len(s) >= Len(arg) /\ SubSeq(s, 1, Len(arg)) = arg}
           IN  IF Cardinality(m) = 1 THEN m ELSE {}

(* Snapshots that repeat the one just before them in time. *)
Repeats(X, R) == {s \in Snaps(R) : \E t \in Older(X, R, s) :
                     /\ X.snaps[t].root = X.snaps[s].root
                     /\ ~\E u \in Older(X, R, s) : Before(X, t, u)}
=============================================================================
