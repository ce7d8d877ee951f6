---------------------------- MODULE PipelineTrace ----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, cfg, now, conn, call, budget
P == INSTANCE Pipeline
Ev == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ P!PInit(Traces[k].cfg)
Observed ==
  /\ More /\ Ev.t = now
  /\ \/ Ev.e = "begin"  /\ P!Begin(Ev.c, Ev.q)
     \/ Ev.e = "dial"   /\ P!Dial(Ev.k)
     \/ Ev.e = "dialed" /\ P!DialEnd(Ev.k, Ev.ok)
     \/ Ev.e = "wire"   /\ P!Wire(Ev.k, Ev.c, Ev.id, Ev.same)
     \/ Ev.e = "send"   /\ P!Send(Ev.k, Ev.id, Ev.q, Ev.dec, Ev.tok)
     \/ Ev.e = "stall"  /\ P!SetStall(Ev.k, Ev.on)
     \/ Ev.e = "sclose" /\ P!ServerClose(Ev.k)
     \/ Ev.e = "cclose" /\ P!ClientClose(Ev.k)
     \/ Ev.e = "end"    /\ P!Return(Ev.c, Ev.o)
     \/ Ev.e = "idle"   /\ P!Quiet
  /\ i' = i + 1 /\ UNCHANGED tr
Next == (Observed \/ (More /\ P!Pass(Ev.t) /\ UNCHANGED <<tr, i>>)) /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
==============================================================================
