----------------------------- MODULE CacheTrace -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, ccfg, now, lru, pfs
C == INSTANCE Cache
Ev   == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ C!CInit(Traces[k].cfg)
Observed ==
  /\ More /\ Ev.t = now
  /\ \/ Ev.e = "hit"    /\ C!Hit(Ev.key, Ev.anc, Ev.ret, Ev.pf) /\ Ev.pfok
     \/ Ev.e = "miss"   /\ C!Miss(Ev.key, Ev.anc, Ev.t2, Ev.up, Ev.ret) /\ Ev.upok
     \/ Ev.e = "bypass" /\ C!Bypass(Ev.t2, Ev.up, Ev.ret) /\ Ev.upok
     \/ Ev.e = "flush"  /\ C!Flush(Ev.ret)
     \/ Ev.e = "pfend"  /\ C!RefreshEnd(Ev.n, Ev.up)
     \/ Ev.e = "size"   /\ (ccfg.cap > 0 => Ev.n <= ccfg.cap) /\ UNCHANGED <<ccfg, now, lru, pfs>>
  /\ i' = i + 1 /\ UNCHANGED tr
Hidden == /\ More
          /\ \/ Ev.t > now /\ C!Pass(Ev.t)
             \/ C!Collect
          /\ UNCHANGED <<tr, i>>
Next == (Observed \/ Hidden) /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================
