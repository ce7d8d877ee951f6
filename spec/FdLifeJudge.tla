----------------------------- MODULE FdLifeJudge -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, conn, out
R == INSTANCE FdServer
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ R!FInit
Ev == Traces[tr].ev[1]
Next == /\ i = 0 /\ ((IF Ev.k = "life" THEN R!LifeOk(Ev) ELSE R!EnduresOk(Ev)) = TRUE)
        /\ i' = 1 /\ UNCHANGED <<tr, conn, out>> /\ Explained(tr, i')
Bound == TRUE
ASSUME InitRegisters
=============================================================================
