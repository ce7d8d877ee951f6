--------------------------- MODULE RateLimitTrace ---------------------------
(* Recorded calls of the real limiter against RateLimit. Decide is hidden.   *)
EXTENDS TraceUtil, Addr, FiniteSets
VARIABLES tr, i, win, cnt, pend
\* pend: function from the open calls to <<network, verdict>>
vars == <<tr, i, win, cnt, pend>>

Cfg == Traces[tr].cfg
Ev  == Traces[tr].ev[i + 1]
W   == IF Cfg.w = 0 THEN 60 ELSE Cfg.w
NetOf(a) == Mask(a, IF Len(a) = 4 THEN (IF Cfg.p4 = 0 THEN 24 ELSE Cfg.p4)
                                  ELSE (IF Cfg.p6 = 0 THEN 56 ELSE Cfg.p6))
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init == tr \in 1..NT /\ i = 0 /\ win = -1 /\ cnt = <<>> /\ pend = <<>>

More == i < Len(Traces[tr].ev)

Begin == /\ More /\ Ev.e = "begin"
         /\ pend' = Put(pend, Ev.c, <<NetOf(Ev.ip), "none", Ev.t>>)
         /\ i' = i + 1 /\ UNCHANGED <<tr, win, cnt>>

Decide(c) ==
  LET w == pend[c][3] \div W
      base == IF win = w THEN cnt ELSE <<>>
      n == pend[c][1] IN
  /\ pend[c][2] = "none"
  /\ win' = w
  /\ cnt' = Put(base, n, Get(base, n) + 1)
  /\ pend' = [pend EXCEPT ![c][2] = IF Get(base, n) < Cfg.n THEN "pass" ELSE "limit"]
  /\ UNCHANGED <<tr, i>>

\* what the caller must see
Out(v) == IF v = "pass" THEN "up" ELSE IF Cfg.lim THEN "lim" ELSE "none"
Ret(c, o) == IF o = "none" THEN "nil" ELSE IF c % 7 = 3 THEN "err" ELSE IF o = "up" THEN "up." ELSE "lim."

End == /\ More /\ Ev.e = "end" /\ Ev.c \in DOMAIN pend
       /\ pend[Ev.c][2] # "none"
       /\ Ev.out = Out(pend[Ev.c][2]) /\ Ev.ret = Ret(Ev.c, Ev.out)
       /\ pend' = Drop(pend, Ev.c)
       /\ i' = i + 1 /\ UNCHANGED <<tr, win, cnt>>

\* real-thread histories, reduced to counts that are certain for any schedule
Window == /\ More /\ Ev.e = "window"
          /\ Ev.passcertain <= Ev.n
          /\ Ev.rejcertain > 0 => Ev.passpossible >= Ev.n
          /\ i' = i + 1 /\ UNCHANGED <<tr, win, cnt, pend>>

Next == /\ (Begin \/ End \/ Window \/ \E c \in DOMAIN pend : Decide(c))
        /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================
