----------------------------- MODULE PersistTrace -----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, ccfg, now, lru, pfs, saved
C == INSTANCE Persist
Ev   == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ C!PInit(Traces[k].cfg)
Set(s) == {s[j] : j \in 1..Len(s)}
Observed ==
  /\ More /\ Ev.t = now
  /\ \/ Ev.e = "hit"     /\ C!Hit(Ev.key, Ev.anc, Ev.ret, Ev.pf) /\ Ev.pfok /\ UNCHANGED saved
     \/ Ev.e = "miss"    /\ C!Miss(Ev.key, Ev.anc, Ev.t2, Ev.up, Ev.ret) /\ Ev.upok /\ UNCHANGED saved
     \/ Ev.e = "pfend"   /\ C!RefreshEnd(Ev.n, Ev.up) /\ UNCHANGED saved
     \/ Ev.e = "size"    /\ (ccfg.cap > 0 => Ev.n <= ccfg.cap) /\ UNCHANGED <<ccfg, now, lru, pfs, saved>>
     \/ Ev.e = "save"    /\ C!Save
     \/ Ev.e = "restart" /\ C!Restart(Ev.cap, Set(Ev.lost), Set(Ev.after))
  /\ i' = i + 1 /\ UNCHANGED tr
Hidden == /\ More
          /\ \/ Ev.t > now /\ C!Pass(Ev.t)
             \/ C!Collect
          /\ UNCHANGED <<tr, i, saved>>
Next == (Observed \/ Hidden) /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================
