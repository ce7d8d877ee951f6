------------------------------ MODULE DedupTrace ------------------------------
EXTENDS TraceUtil
VARIABLES tr, i, call, infl
D == INSTANCE Dedup WITH Callers <- {}, Keys <- {}, Outs <- {}
vars == <<tr, i, call, infl>>
Ev   == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Key(e) == <<e.ln, e.t, e.cl, e.do, e.cd, e.ecs>>

Init == tr \in 1..NT /\ i = 0 /\ D!DInit

Observed ==
  /\ More
  /\ \/ Ev.e = "begin"  /\ D!Arrive(Ev.c, Key(Ev))
     \/ Ev.e = "start"  /\ Ev.c \in DOMAIN call /\ D!LookupStart(Ev.c)
     \/ Ev.e = "finish" /\ Ev.c \in DOMAIN call /\ D!LookupFinish(Ev.c, Ev.out)
     \/ Ev.e = "end"    /\ Ev.c \in DOMAIN call /\ D!Return(Ev.c, Ev.out) /\ Ev.idok /\ Ev.qok /\ ~Ev.shared
     \/ Ev.e = "idle"   /\ D!Quiet /\ UNCHANGED <<call, infl>>
  /\ i' = i + 1 /\ UNCHANGED tr

Hidden == /\ More /\ \E c \in DOMAIN call : D!Enter(c) \/ D!Remove(c)
          /\ UNCHANGED <<tr, i>>

Next == (Observed \/ Hidden) /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
===============================================================================
