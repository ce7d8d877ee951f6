---------------------------- MODULE ListenerTrace ----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, cfg, req, open
R == INSTANCE Listener
Ev == Traces[tr].ev[i + 1]
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ R!LInit(Traces[k].cfg)
Next ==
  /\ i < Len(Traces[tr].ev)
  /\ \/ Ev.e = "send"   /\ R!Send(Ev.i, Ev.cls, Ev.path)
     \/ Ev.e = "call"   /\ R!Call(Ev.i, Ev)
     \/ Ev.e = "ret"    /\ R!Return(Ev.i, Ev.out, Ev.txt)
     \/ Ev.e = "recv"   /\ R!Reply(Ev.i, Ev)
     \/ Ev.e = "closed" /\ R!Closed(Ev.i)
     \/ Ev.e = "fin"    /\ R!Finish
  /\ i' = i + 1 /\ UNCHANGED tr /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
==============================================================================
