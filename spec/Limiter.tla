------------------------------ MODULE Limiter ------------------------------
(* A limit on how many operations run at once, as a user sees it. *)
EXTENDS Integers, FiniteSets
CONSTANT Fair       \* the threads that get their turns
VARIABLES limit,      \* so many at once
          want,       \* thread -> how many operations it has still to do
          inside      \* whose operation is running
Threads == DOMAIN want
Start(t) == /\ t \notin inside /\ want[t] > 0 /\ Cardinality(inside) < limit
            /\ inside' = inside \cup {t} /\ UNCHANGED <<limit, want>>
End(t) == /\ t \in inside /\ inside' = inside \ {t} /\ want' = [want EXCEPT ![t] = @ - 1] /\ UNCHANGED limit
LInit == inside = {}
LNext == \E t \in Threads : Start(t) \/ End(t)
LSpec == LInit /\ [][LNext]_<<limit, want, inside>> /\ \A t \in Fair : WF_<<limit, want, inside>>(End(t)) /\ SF_<<limit, want, inside>>(Start(t))
=============================================================================
