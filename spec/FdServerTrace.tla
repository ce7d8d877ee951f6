--------------------------- MODULE FdServerTrace ---------------------------
EXTENDS TraceUtil
VARIABLES tr, i, conn, out
F == INSTANCE FdServer
Ev == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ F!FInit
Step == \/ Ev.e = "connect" /\ F!Connect(Ev.c)
        \/ Ev.e = "send"    /\ F!Send(Ev.c, Ev.r)
        \/ Ev.e = "fin"     /\ F!Fin(Ev.c)
        \/ Ev.e = "abort"   /\ F!Abort(Ev.c)
        \/ Ev.e = "recv"    /\ F!Recv(Ev.c, Traces[tr].cfg.unrestricted, Ev.resp)
        \/ Ev.e = "closed"  /\ F!Closed(Ev.c)
Next == More /\ Step /\ i' = i + 1 /\ UNCHANGED tr /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================
