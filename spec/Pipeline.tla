------------------------------ MODULE Pipeline ------------------------------
(* The pipeline behind backup, copy, prune and filter-snapshot (src/backup.rs, pack.rs, index.rs, upload.rs): a main
   thread hands chunks and trees to two packers; packers hand files to the uploader and manifests to the indexer; the
   indexer keeps a resumable (WIP) index and hands the finished index to the uploader. Channels are rendezvous
   (Cap = 0) or hold Cap items. Any stage may fail, or the process may be killed, between any two steps. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NC, NT,       \* how many chunks and trees the main thread sends
          NR,           \* packs of an interrupted run that are still to be uploaded from the working directory
          NS,           \* packs of the starting index that are in the repository already (of an interrupted run, or kept by prune)
          Cap,          \* what a channel holds
          Slots,        \* how many stages can run at once (4: no limit)
          MayFail,      \* may stages fail?
          Removes       \* does the command remove old packs and indexes afterwards (prune)?

Stages == {"c", "t", "idx", "up"}
Packers == {"c", "t"}
\* Packs are sequences of blobs <<kind, n>>; resumed and kept packs are <<"r", n>> and <<"s", n>>.
Start == {<<<<"r", i>>>> : i \in 1 .. NR} \cup {<<<<"s", i>>>> : i \in 1 .. NS}
Blobs == {<<"c", i>> : i \in 1 .. NC} \cup {<<"t", i>> : i \in 1 .. NT}
None == <<"none">>

VARIABLES main, sent, resumed,      \* the main thread: where it is, what it sent of each kind, which packs it resumed
          run,                      \* the stages that were started
          pk, cur,                  \* packers: where they are, the pack they're filling (or passing on)
          ix, got,                  \* the indexer: where it is, what's in its index
          up, job,                  \* the uploader: where it is, what it's uploading
          ch,                       \* what's in the channels
          cwd, wip, packs, index, snap, removed,   \* the working directory and the repository
          dead                      \* did the process end early?
vars == <<main, sent, resumed, run, pk, cur, ix, got, up, job, ch, cwd, wip, packs, index, snap, removed, dead>>

Chans == {"c", "t", "idx", "up"}    \* named after who receives

Init ==
    /\ main = "resume" /\ sent = [p \in Packers |-> 0] /\ resumed = 0
    /\ run = {}
    /\ pk = [p \in Packers |-> "recv"] /\ cur = [p \in Packers |-> <<>>]
    /\ ix = "start" /\ got = Start
    /\ up = "recv" /\ job = None
    /\ ch = [c \in Chans |-> <<>>]
    /\ cwd = {<<<<"r", i>>>> : i \in 1 .. NR} /\ packs = {<<<<"s", i>>>> : i \in 1 .. NS}
    /\ wip = (IF NR > 0 THEN Start ELSE {}) /\ index = None /\ snap = FALSE /\ removed = FALSE /\ dead = FALSE

Order == <<"c", "t", "idx", "up">>      \* the order in which stages are started
Exited(s) == CASE s \in Packers -> pk[s] = "exit" [] s = "idx" -> ix = "exit" [] s = "up" -> up = "exit"
Spawn ==
    /\ Cardinality(run) < 4 /\ Cardinality({x \in run : ~Exited(x)}) < Slots
    /\ run' = run \cup {Order[Cardinality(run) + 1]}
    /\ UNCHANGED <<main, sent, resumed, pk, cur, ix, got, up, job, ch, cwd, wip, packs, index, snap, removed, dead>>

\* Who might still send on a channel.
Open(c) ==
    CASE c \in Packers -> main \in {"resume", "walk"}
      [] c = "idx" -> \E p \in Packers : pk[p] # "exit"
      [] c = "up" -> main \in {"resume", "walk"} \/ ix # "exit" \/ \E p \in Packers : pk[p] # "exit"
Ready(c) == c \in run /\ (CASE c \in Packers -> pk[c] = "recv" [] c = "idx" -> ix = "recv" [] c = "up" -> up = "recv")
\* With Cap = 0 an item is handed over only when the receiver takes it at once.
CanSend(c) == IF Cap = 0 THEN Ready(c) /\ ch[c] = <<>> ELSE Len(ch[c]) < Cap
CanTake(c) == Ready(c) /\ ch[c] # <<>>
Hand(c, x) == ch' = [ch EXCEPT ![c] = Append(@, x)]
Take(c) == ch' = [ch EXCEPT ![c] = Tail(@)]
Closed(c) == Ready(c) /\ ch[c] = <<>> /\ ~Open(c)

MainResume ==
    /\ main = "resume"
    /\ IF resumed < NR
       THEN CanSend("up") /\ Hand("up", <<"pack", <<<<"r", resumed + 1>>>>>>) /\ resumed' = resumed + 1 /\ UNCHANGED main
       ELSE main' = "walk" /\ UNCHANGED <<ch, resumed>>
    /\ UNCHANGED <<sent, run, pk, cur, ix, got, up, job, cwd, wip, packs, index, snap, removed, dead>>
MainSend(p) ==
    /\ main = "walk" /\ sent[p] < (IF p = "c" THEN NC ELSE NT) /\ CanSend(p)
    /\ Hand(p, <<p, sent[p] + 1>>) /\ sent' = [sent EXCEPT ![p] = @ + 1]
    /\ UNCHANGED <<main, resumed, run, pk, cur, ix, got, up, job, cwd, wip, packs, index, snap, removed, dead>>
MainJoin ==
    /\ main = "walk" /\ sent = [p \in Packers |-> IF p = "c" THEN NC ELSE NT] /\ main' = "join"
    /\ UNCHANGED <<sent, resumed, run, pk, cur, ix, got, up, job, ch, cwd, wip, packs, index, snap, removed, dead>>
MainEnd ==
    /\ \/ main = "join" /\ run = Stages /\ ix = "exit" /\ up = "exit" /\ \A p \in Packers : pk[p] = "exit"
          /\ main' = "joined" /\ wip' = {} /\ UNCHANGED <<snap, removed>>
       \/ main = "joined" /\ main' = "done" /\ snap' = ~Removes /\ removed' = Removes /\ UNCHANGED wip
    /\ UNCHANGED <<sent, resumed, run, pk, cur, ix, got, up, job, ch, cwd, packs, index, dead>>

PackerTake(p) ==
    /\ CanTake(p) /\ Take(p) /\ cur' = [cur EXCEPT ![p] = Append(@, Head(ch[p]))]
    /\ pk' = [pk EXCEPT ![p] = "wrote"]
    /\ UNCHANGED <<main, sent, resumed, run, ix, got, up, job, cwd, wip, packs, index, snap, removed, dead>>
PackerMore(p) ==    \* the pack isn't full yet, or it is
    /\ pk[p] = "wrote" /\ \E to \in {"recv", "full"} : pk' = [pk EXCEPT ![p] = to]
    /\ UNCHANGED <<main, sent, resumed, run, cur, ix, got, up, job, ch, cwd, wip, packs, index, snap, removed, dead>>
PackerEnd(p) ==
    /\ Closed(p) /\ pk' = [pk EXCEPT ![p] = IF cur[p] = <<>> THEN "exit" ELSE "full"]
    /\ UNCHANGED <<main, sent, resumed, run, cur, ix, got, up, job, ch, cwd, wip, packs, index, snap, removed, dead>>
PackerPersist(p) ==
    /\ pk[p] = "full" /\ cwd' = cwd \cup {cur[p]} /\ pk' = [pk EXCEPT ![p] = "upload"]
    /\ UNCHANGED <<main, sent, resumed, run, cur, ix, got, up, job, ch, wip, packs, index, snap, removed, dead>>
PackerUpload(p) ==
    /\ pk[p] = "upload" /\ CanSend("up") /\ Hand("up", <<"pack", cur[p]>>) /\ pk' = [pk EXCEPT ![p] = "index"]
    /\ UNCHANGED <<main, sent, resumed, run, cur, ix, got, up, job, cwd, wip, packs, index, snap, removed, dead>>
PackerIndex(p) ==
    /\ pk[p] = "index" /\ CanSend("idx") /\ Hand("idx", cur[p])
    /\ cur' = [cur EXCEPT ![p] = <<>>] /\ pk' = [pk EXCEPT ![p] = "recv"]
    /\ UNCHANGED <<main, sent, resumed, run, ix, got, up, job, cwd, wip, packs, index, snap, removed, dead>>

IndexerStart ==
    /\ ix = "start" /\ "idx" \in run /\ ix' = "recv" /\ wip' = IF got # {} THEN got ELSE wip
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, got, up, job, ch, cwd, packs, index, snap, removed, dead>>
IndexerTake ==
    /\ CanTake("idx") /\ Take("idx") /\ got' = got \cup {Head(ch["idx"])} /\ ix' = "save"
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, up, job, cwd, wip, packs, index, snap, removed, dead>>
IndexerSave ==
    /\ ix = "save" /\ wip' = got /\ ix' = "recv"
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, got, up, job, ch, cwd, packs, index, snap, removed, dead>>
IndexerEnd ==
    /\ Closed("idx") /\ ix' = IF got = {} THEN "exit" ELSE "upload"
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, got, up, job, ch, cwd, wip, packs, index, snap, removed, dead>>
IndexerUpload ==
    /\ ix = "upload" /\ CanSend("up") /\ Hand("up", <<"index", got>>) /\ ix' = "exit"
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, got, up, job, cwd, wip, packs, index, snap, removed, dead>>

UploaderTake ==
    /\ CanTake("up") /\ Take("up") /\ job' = Head(ch["up"]) /\ up' = "write"
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, ix, got, cwd, wip, packs, index, snap, removed, dead>>
UploaderWrite ==
    /\ up = "write"
    /\ IF job[1] = "pack" THEN packs' = packs \cup {job[2]} /\ up' = "clean" /\ UNCHANGED index
       ELSE index' = job /\ up' = "recv" /\ UNCHANGED packs
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, ix, got, job, ch, cwd, wip, snap, removed, dead>>
UploaderClean ==
    /\ up = "clean" /\ cwd' = cwd \ {job[2]} /\ up' = "recv"
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, ix, got, job, ch, wip, packs, index, snap, removed, dead>>
UploaderEnd ==
    /\ Closed("up") /\ up' = "exit"
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, ix, got, job, ch, cwd, wip, packs, index, snap, removed, dead>>

Die ==
    /\ MayFail /\ main # "done" /\ dead' = TRUE
    /\ UNCHANGED <<main, sent, resumed, run, pk, cur, ix, got, up, job, ch, cwd, wip, packs, index, snap, removed>>

Over == main = "done" \/ dead
Work ==
    \/ Spawn
    \/ MainResume \/ MainJoin \/ MainEnd \/ \E p \in Packers : MainSend(p)
    \/ \E p \in Packers : PackerTake(p) \/ PackerMore(p) \/ PackerEnd(p) \/ PackerPersist(p) \/ PackerUpload(p) \/ PackerIndex(p)
    \/ IndexerStart \/ IndexerTake \/ IndexerSave \/ IndexerEnd \/ IndexerUpload
    \/ UploaderTake \/ UploaderWrite \/ UploaderClean \/ UploaderEnd
Next == (~dead /\ (Work \/ Die)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(~dead /\ Work)

\* ------------------------------------------------------------------ what holds at every instant, whenever it ends
Indexed == IF index = None THEN {} ELSE index[2]
Stored(ps) == UNION {{p[i] : i \in 1 .. Len(p)} : p \in ps}
IndexComplete == Indexed \subseteq packs                                       \* C06: nothing visible refers to what isn't there
SnapshotComplete == snap => Blobs \cup Stored(Start) \subseteq Stored(Indexed) \* C04
RemovalSafe == removed => Blobs \cup Stored(Start) \subseteq Stored(Indexed)   \* C07: only remove what's been replaced
WipThere == wip \subseteq cwd \cup packs                                       \* C05: what a resumed run relies on
\* packs that a resumed run doesn't know about
WipLag == main \notin {"joined", "done"} => Cardinality((cwd \cup packs) \ (wip \cup Start)) <= 3 + 3 * Cap
Leftover == Cardinality(cwd \ wip) <= 3 + 2 * Cap                                       \* packs a crash leaves behind for nothing
Once == \A p, q \in cwd \cup packs : p # q => Stored({p}) \cap Stored({q}) = {}        \* C22: exactly once
InOrder == \A p \in cwd \cup packs : \A i \in 2 .. Len(p) : p[i] = <<p[1][1], p[i-1][2] + 1>>
AtEnd == main = "done" =>
    /\ Stored(Indexed) = Blobs \cup Stored(Start) /\ Indexed = packs
    /\ cwd = {} /\ wip = {} /\ (Blobs \cup Start # {} => index # None)
Inv == IndexComplete /\ SnapshotComplete /\ RemovalSafe /\ WipThere /\ WipLag /\ Leftover /\ Once /\ InOrder /\ AtEnd
Finishes == <>Over
=============================================================================
