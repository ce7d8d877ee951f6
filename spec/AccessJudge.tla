----------------------------- MODULE AccessJudge -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i
R == INSTANCE Access
Init == \E k \in 1..NT : tr = k /\ i = 0
Next == i = 0 /\ (R!AccessOk(Traces[tr].ev[1]) = TRUE) /\ i' = 1 /\ UNCHANGED tr /\ Explained(tr, i')
Bound == TRUE
ASSUME InitRegisters
=============================================================================
