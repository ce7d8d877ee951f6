----------------------------- MODULE TransformJudge -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i
R == INSTANCE Transform
Init == \E k \in 1..NT : tr = k /\ i = 0
Next == i = 0 /\ (R!TransformOk(Traces[tr].ev[1]) = TRUE) /\ i' = 1 /\ UNCHANGED tr /\ Explained(tr, i')
Bound == TRUE
ASSUME InitRegisters
=============================================================================
