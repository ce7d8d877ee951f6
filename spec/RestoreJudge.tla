---------------------------- MODULE RestoreJudge ----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, fcfg, names, inodes, fds, begun
R == INSTANCE SaveFile
E == Traces[tr].ev[1]
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ fcfg = 0 /\ names = 0 /\ inodes = 0 /\ fds = 0 /\ begun = 0
Next == /\ i = 0 /\ ((IF E.k = "start" THEN R!RestoredOk(E) ELSE R!RemovedOk(E)) = TRUE)
        /\ i' = 1 /\ UNCHANGED <<tr, fcfg, names, inodes, fds, begun>> /\ Explained(tr, i')
Bound == TRUE
ASSUME InitRegisters
=============================================================================
