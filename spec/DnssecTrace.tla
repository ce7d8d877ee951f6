----------------------------- MODULE DnssecTrace -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, cfg, gen, keys, now
D == INSTANCE Dnssec WITH Star <- "*"
Ev == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ D!DInit(Traces[k].cfg)
Observed ==
  /\ More /\ Ev.t = now
  /\ \/ Ev.e = "key"   /\ D!Fetch(Ev.z, Ev.gen, Ev.ttl)
     \/ Ev.e = "roll"  /\ D!Roll(Ev.z)
     \/ Ev.e = "reply" /\ D!Reply(Ev)
  /\ i' = i + 1 /\ UNCHANGED tr
Next == (Observed \/ (More /\ D!Pass(Ev.t) /\ UNCHANGED <<tr, i>>)) /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
==============================================================================
