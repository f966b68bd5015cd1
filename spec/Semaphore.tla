----------------------------- MODULE Semaphore -----------------------------
(***************************************************************************)
(* The counting semaphore that limits a backend's connections (and the     *)
(* threads of concurrently()), at the grain of its atomic steps: tries to  *)
(* take a slot, finds none, looks again and falls asleep in one futex      *)
(* step, runs its operation, puts the slot back, and wakes one sleeper.    *)
(*                                                                         *)
(* A slot can be taken by a newcomer between the put-back and the wake,    *)
(* the woken may find nothing and sleep again, and sleepers may wake for   *)
(* no reason at all.                                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, N, Rounds, Spurious,
          WakeRule    \* "always" as it should be; "fromzero": only wake when the count was 0 (a lost wakeup)

VARIABLES pc, count, left
vars == <<pc, count, left>>

Init == /\ pc = [t \in Threads |-> "idle"]
        /\ count = N
        /\ left = [t \in Threads |-> Rounds]

Running == {t \in Threads : pc[t] = "running"}
Asleep == {t \in Threads : pc[t] = "asleep"}

To(t, p) == pc' = [pc EXCEPT ![t] = p]

Try(t) == /\ pc[t] \in {"idle", "woken"}
          /\ pc[t] = "idle" => left[t] > 0
          /\ IF count > 0 THEN count' = count - 1 /\ To(t, "running") ELSE count' = count /\ To(t, "waiting")
          /\ UNCHANGED left
Wait(t) == /\ pc[t] = "waiting"
           /\ To(t, IF count = 0 THEN "asleep" ELSE "woken")
           /\ UNCHANGED <<count, left>>
Finish(t) == /\ pc[t] = "running"
             /\ count' = count + 1
             /\ To(t, IF WakeRule = "fromzero" /\ count # 0 THEN "idle" ELSE "wake")
             /\ left' = [left EXCEPT ![t] = @ - 1]
Wake(t, who) == /\ pc[t] = "wake"
                /\ IF Asleep = {} THEN who = t /\ To(t, "idle")
                   ELSE who \in Asleep /\ pc' = [pc EXCEPT ![t] = "idle", ![who] = "woken"]
                /\ UNCHANGED <<count, left>>
Spuriously(t) == /\ Spurious /\ pc[t] = "asleep" /\ To(t, "woken") /\ UNCHANGED <<count, left>>

Step(t) == Try(t) \/ Wait(t) \/ Finish(t) \/ \E who \in Threads : Wake(t, who)
Next == \E t \in Threads : Step(t) \/ Spuriously(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

TypeOK == /\ pc \in [Threads -> {"idle", "waiting", "asleep", "woken", "running", "wake"}]
          /\ count \in 0..N /\ left \in [Threads -> 0..Rounds]
Slots == count + Cardinality(Running) = N

(* C23 *)
NeverMore == Cardinality(Running) <= N
AllDone == \A t \in Threads : left[t] = 0 /\ pc[t] = "idle"
(* Nobody sleeps for good: when nothing but spurious wakeups could happen, all have finished. *)
NobodyForgotten == (\A t \in Threads : ~ENABLED Step(t)) => AllDone
Everyone == <>[]AllDone

(* It does what the abstract limiter does. *)
L == INSTANCE Limiter WITH Fair <- Threads, limit <- N, want <- left, inside <- Running
Limits == L!LSpec
=============================================================================
