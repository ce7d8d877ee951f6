------------------------------ MODULE Frequency ------------------------------
(* The query-frequency prefetcher: times in seconds.                           *)
EXTENDS Integers, Sequences
VARIABLES fcfg,  \* [window, slack, threshold]
          asked  \* times of the counted queries per key, oldest first: [key, ts]
fvars == <<fcfg, asked>>
FInit(c) == fcfg = c /\ asked = <<>>
Times(k) == SelectSeq(asked, LAMBDA a : a.key = k)
\* the reply is passed on unchanged; replies that could be refreshed are counted
Countable(up) == up.k = "msg" /\ up.rc = 0 /\ ~up.tc /\ Len(up.rrs) > 0 /\ \A j \in 1..Len(up.rrs) : up.rrs[j].ttl >= 2
Ask(k, t, up, ret) ==
  /\ ret = up
  /\ asked' = IF Countable(up) THEN Append(asked, [key |-> k, t |-> t]) ELSE asked
  /\ UNCHANGED fcfg
\* number of queries in the unbroken run (no gap above the window) that reaches to t
RECURSIVE Streak(_, _, _)
Streak(ts, n, t) == IF n = 0 \/ t - ts[n].t > fcfg.window + fcfg.slack THEN 0
                    ELSE 1 + Streak(ts, n - 1, ts[n].t)
Refresh(k, t) == /\ Streak(Times(k), Len(Times(k)), t) >= fcfg.threshold
                 /\ UNCHANGED fvars
==============================================================================
