----------------------------- MODULE WatchJudge -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, queue, present, insts
R == INSTANCE Supervise
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ R!SInit
Next == i = 0 /\ (R!WatchOk(Traces[tr].ev[1]) = TRUE) /\ i' = 1 /\ UNCHANGED <<tr, queue, present, insts>> /\ Explained(tr, i')
Bound == TRUE
ASSUME InitRegisters
=============================================================================
