----------------------------- MODULE RefreshTrace -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, cfg, src, last, disk, first, act, busy, due
R == INSTANCE Refresh
Ev == Traces[tr].ev[i + 1]
Init == \E k \in 1..NT : tr = k /\ i = 0
          /\ IF Traces[k].cfg.loader THEN R!LInit(Traces[k].cfg) ELSE R!EInit(Traces[k].cfg, Traces[k].cfg.versions)
Next ==
  /\ i < Len(Traces[tr].ev)
  /\ \/ Ev.e = "src"     /\ R!Source(Ev.k, Ev.ok, Ev.v)
     \/ Ev.e = "load"    /\ R!Load([err |-> Ev.err, v |-> Ev.v])
     \/ Ev.e = "restart" /\ R!Restart
     \/ Ev.e = "disk"    /\ R!OnDisk(Ev.v)
     \/ Ev.e = "refresh" /\ R!RefreshAll
     \/ Ev.e = "probe"   /\ R!Probe(Ev.hit)
     \/ Ev.e = "begin"   /\ R!ReloadBegin(Ev.t, Ev.ok, Ev.v)
     \/ Ev.e = "end"     /\ R!ReloadEnd(Ev.t)
     \/ Ev.e = "at"      /\ R!At(Ev.t)
  /\ i' = i + 1 /\ UNCHANGED tr /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
==============================================================================
