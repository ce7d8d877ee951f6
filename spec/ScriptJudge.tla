----------------------------- MODULE ScriptJudge -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, size, calls
R == INSTANCE ScriptPool
E == Traces[tr].ev[1]
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ size = 0 /\ calls = 0
Next == /\ i = 0 /\ ((IF E.k = "start" THEN R!StartOk(E) ELSE R!AttemptOk(E)) = TRUE)
        /\ i' = 1 /\ UNCHANGED <<tr, size, calls>> /\ Explained(tr, i')
Bound == TRUE
ASSUME InitRegisters
=============================================================================
