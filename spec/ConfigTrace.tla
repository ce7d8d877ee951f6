---------------------------- MODULE ConfigTrace -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, st
C == INSTANCE Config
Cfg == Traces[tr].cfg
Ev == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ st = [none |-> 0]
Up == Ev.e = "up" /\ (C!Sound(Cfg) = TRUE) /\ st' = C!StartAll(Cfg)
\* refused: with an error, and nothing was served meanwhile
Exit == Ev.e = "exit" /\ (C!Sound(Cfg) = FALSE) /\ Ev.code # 0 /\ ~Ev.served /\ ~Ev.crash /\ st' = st
Query == /\ Ev.e = "q"
         /\ \E o \in C!Outcomes(Cfg, Ev.q, st) : (C!SameVisits(Cfg, o.v, Ev.v) = TRUE) /\ (C!Agrees(o.r, Ev.a) = TRUE) /\ st' = o.st
Observed == (Up \/ Exit \/ Query) /\ i' = i + 1
Next == More /\ Observed /\ UNCHANGED tr /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================
