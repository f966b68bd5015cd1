---------------------------- MODULE ClientTrace ----------------------------
(***************************************************************************)
(* Checks executions of the real binary, recorded by lib/driver.py, against *)
(* the contracts in Client. Each script is one initial state; each recorded *)
(* command one step. A disallowed step is reported and checking continues   *)
(* from the observed state.                                                *)
(***************************************************************************)
EXTENDS Client, Json, IOUtils

Scripts == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, w, g
vars == <<tid, l, w, g>>

X == Scripts[tid].X
Env == {"start", "edit", "damage", "heal", "newrepo"}

Recov(r, R) == LET a == Avail(X, R) IN {s \in Snaps(R) : Recoverable(X, R, s, a)}

Init ==
  /\ tid \in DOMAIN Scripts
  /\ l = 1
  /\ w = Scripts[tid].ev[1].post
  /\ g = [want |-> [r \in DOMAIN w.r |-> Snaps(X.rs[w.r[r]])], hurt |-> {}, torn |-> {},
          crashed |-> <<>>, left |-> <<>>, fresh |-> {}, base |-> w.r]

Target(e) == IF e.op = "conc" THEN ConcTarget(e.cmds[1]) ELSE IF e.op = "copy" THEN e.to ELSE e.repo
(* What prune may do to snapshots that came while it ran. *)
Harmed(e) == e.op = "conc" /\ LET R == X.rs[e.post.r[Target(e)]] IN
               \/ LyingPacks(X, R) # {} \/ \E s \in Snaps(R) : ~Recoverable(X, R, s, Sound(X, R))

(* The ghost state after an event, from what was observed. *)
Hurt(e) == IF Harmed(e) THEN g.hurt \cup {Target(e)} ELSE IF e.op = "damage" THEN g.hurt \cup {e.repo}
           ELSE IF e.op = "heal" \/ (e.op = "rebuild" /\ e.rc = 0 /\ ~e.dry /\ ~Killed(e) /\ e.repo \notin g.torn)
                THEN g.hurt \ {e.repo} ELSE g.hurt
Torn(e) == IF Harmed(e) THEN g.torn \cup {Target(e)} ELSE IF e.op = "damage" /\ e.what # "index" THEN g.torn \cup {e.repo}
           ELSE IF e.op = "heal" THEN g.torn \ {e.repo} ELSE g.torn
Crashed(e) ==
  IF e.op \in Env \/ ~(Killed(e) \/ e.op = "conc") THEN g.crashed
  ELSE (Target(e) :> ((IF Target(e) \in DOMAIN g.crashed THEN g.crashed[Target(e)] ELSE {}) \cup {e.op} \cup
                      (IF e.faulty THEN {"fault"} ELSE {}))) @@ g.crashed
Left(e, post) ==
  LET keep == [c \in {c \in DOMAIN g.left : post.cw[c] = w.cw[c]} |-> g.left[c]]
  IN  IF e.op \notin Env /\ Killed(e) /\ post.cw[e.cw] # w.cw[e.cw] /\ ~Clean(X, post, e)
      THEN (e.cw :> [op |-> e.op, repo |-> Target(e), at |-> post.r[Target(e)], packs |-> Packs(RR(X, post, Target(e)))]) @@ keep
      ELSE keep

Step ==
  /\ l < Len(Scripts[tid].ev)
  /\ LET e == Scripts[tid].ev[l + 1]
         post == e.post
         fails == IF e.op \in Env THEN {} ELSE IF e.op = "conc" THEN Contract(X, e, w, post, g) ELSE Frame(X, e, w, post, g) \cup Contract(X, e, w, post, g)
         hurt == Hurt(e)
     IN  /\ \A f \in fails : PrintT("@" \o ToJson([script |-> Scripts[tid].id, step |-> l, op |-> e.op, tags |-> f[1] \cup (IF e.op \in Env THEN {} ELSE (IF ~e.faulty THEN {} ELSE IF e.ffail THEN {"C25"} ELSE {"C24"}) \cup
                                                                    (IF e.cloud.on THEN {"C28"} ELSE {})),
                                                   what |-> f[2], detail |-> f[3]]))
         /\ w' = post
         /\ g' = [want |-> [r \in DOMAIN post.r |-> IF r \in hurt THEN {} ELSE
                              IF r \in DOMAIN w.r /\ w.r[r] = post.r[r] /\ r \notin g.hurt THEN g.want[r] ELSE Recov(r, X.rs[post.r[r]])],
                  hurt |-> hurt, torn |-> Torn(e), crashed |-> Crashed(e), left |-> Left(e, post),
                  base |-> [r \in DOMAIN post.r |-> IF r \in hurt /\ r \in DOMAIN g.base THEN g.base[r] ELSE post.r[r]],
                  fresh |-> IF e.op \in Env THEN DOMAIN post.r ELSE {}]
  /\ l' = l + 1
  /\ tid' = tid

Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
