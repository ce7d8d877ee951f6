--------------------------- MODULE SuperviseTrace ---------------------------
EXTENDS TraceUtil
VARIABLES tr, i, queue, present, insts
S == INSTANCE Supervise
Ev == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ S!SInit
Observed ==
  /\ \/ Ev.e = "ns"       /\ S!Offer(Ev.p)
     \/ Ev.e = "buildfail" /\ S!BuildFails
     \/ Ev.e = "build"    /\ S!Build(Ev.n)
     \/ Ev.e = "start"    /\ S!Start(Ev.n)
     \/ Ev.e = "end"      /\ S!Ends(Ev.n)
     \/ Ev.e = "stop"     /\ S!Stop(Ev.n)
     \/ Ev.e = "settled"  /\ S!Settled(Ev.p)
  /\ i' = i + 1
Hidden == S!TakeEvent /\ i' = i
Next == More /\ (Observed \/ Hidden) /\ UNCHANGED tr /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================
