---------------------------- MODULE LimiterTrace ----------------------------
(* Runs of the real backend, recorded as which thread's operation began and ended when, against the limiter. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.TRACE)      \* sequence of [n, threads, rounds, ev : sequence of [k, t], end]
VARIABLES run, i, want, inside
X == Runs[run]
LM == INSTANCE Limiter WITH Fair <- {}, limit <- X.n
Init == /\ run \in 1..Len(Runs) /\ i = 0
        /\ want = [t \in 0..(X.threads - 1) |-> X.rounds] /\ LM!LInit
E == X.ev[i + 1]
Take == /\ i >= 0 /\ i < Len(X.ev) /\ run' = run
        /\ IF E.k = "+" THEN LM!Start(E.t) ELSE LM!End(E.t)
        /\ i' = i + 1
Finished == i = Len(X.ev) /\ X.end = "done" /\ inside = {} /\ \A t \in DOMAIN want : want[t] = 0
Fail == /\ i >= 0 /\ ~ENABLED Take /\ ~Finished
        /\ PrintT(ToJson([at |-> "@", run |-> run, i |-> i,
                          what |-> IF i < Len(X.ev) THEN "more operations at once than allowed" ELSE "a waiting operation never got to run"]))
        /\ i' = -1 /\ UNCHANGED <<run, want, inside>>
Next == Take \/ Fail
Spec == Init /\ [][Next]_<<run, i, want, inside>>
=============================================================================
