---------------------------- MODULE FailOverTrace ----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, cfg, now, active, deadline, fired, call
F == INSTANCE FailOver WITH Calls <- {}, MaxTime <- 0, Cfgs <- {}, asked <- {}, solo <- {}
Ev   == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Out(e) == e.o
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ F!FInit(Traces[k].cfg)
Known(e) == e.c \in DOMAIN call
Observed ==
  /\ More /\ Ev.t = now
  /\ \/ Ev.e = "begin" /\ F!Begin(Ev.c)
     \/ Ev.e = "ask"   /\ Known(Ev) /\ F!Ask(Ev.c, Ev.m)
     \/ Ev.e = "ans"   /\ Known(Ev) /\ F!Answer(Ev.c, Out(Ev))
     \/ Ev.e = "end"   /\ Known(Ev) /\ F!Return(Ev.c, Out(Ev))
     \/ Ev.e = "idle"  /\ F!Quiet /\ UNCHANGED <<cfg, now, active, deadline, fired, call>>
  /\ i' = i + 1 /\ UNCHANGED tr
Hidden == /\ More
          /\ \/ \E c \in DOMAIN call : F!Pick(c) \/ F!Failed(c)
             \/ F!Reset
             \/ F!Pass(Ev.t)
          /\ UNCHANGED <<tr, i>>
Next == (Observed \/ Hidden) /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
==============================================================================
