----------------------------- MODULE RouteJudge -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i
R == INSTANCE Route
Init == \E k \in 1..NT : tr = k /\ i = 0
Next == i = 0 /\ (R!RouteOk(Traces[tr].ev[1]) = TRUE) /\ i' = 1 /\ UNCHANGED tr /\ Explained(tr, i')
Bound == TRUE
ASSUME InitRegisters
=============================================================================
