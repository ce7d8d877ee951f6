--------------------------- MODULE FrequencyTrace ---------------------------
EXTENDS TraceUtil
VARIABLES tr, i, fcfg, asked
F == INSTANCE Frequency
Ev   == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ F!FInit(Traces[k].cfg)
Next == /\ More
        /\ \/ Ev.e = "ask" /\ F!Ask(Ev.key, Ev.t, Ev.up, Ev.ret) /\ Ev.upok
           \/ Ev.e = "refresh" /\ F!Refresh(Ev.key, Ev.t)
        /\ i' = i + 1 /\ UNCHANGED tr
        /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================
