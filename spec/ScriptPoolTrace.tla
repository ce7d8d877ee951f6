--------------------------- MODULE ScriptPoolTrace ---------------------------
EXTENDS TraceUtil, Naturals
VARIABLES tr, i, size, calls
P == INSTANCE ScriptPool
Ev == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Set(s) == {s[j] : j \in 1..Len(s)}
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ P!PInit(Traces[k].cfg.size)
Observed ==
  /\ \/ Ev.e = "call"   /\ P!Arrive(Ev.c, Ev.act)
     \/ Ev.e = "ask"    /\ P!Ask(Ev.c)
     \/ Ev.e = "answer" /\ P!Answered(Ev.c, Ev.u)
     \/ Ev.e = "ret"    /\ P!Return(Ev.c, Ev.o, Ev.own)
     \/ Ev.e = "quiet"  /\ P!Quiet(Set(Ev.up))
     \/ Ev.e = "batch"  /\ P!BatchOk(Ev.act, Ev.outs, Ev.own) /\ UNCHANGED <<size, calls>>
  /\ i' = i + 1
\* taking up a script is seen only by what follows
Hidden == /\ Ev.e = "ask" /\ Ev.c \in DOMAIN calls /\ calls[Ev.c].st = "wait" /\ P!Take(Ev.c) /\ i' = i
Next == More /\ (Observed \/ Hidden) /\ UNCHANGED tr /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================
