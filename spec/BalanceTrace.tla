---------------------------- MODULE BalanceTrace ----------------------------
EXTENDS TraceUtil
VARIABLES tr, i, cfg, now, next, act, back, call
B == INSTANCE Balance WITH Calls <- {}, MaxTime <- 0, Cfgs <- {}, asked <- {}
Ev   == Traces[tr].ev[i + 1]
More == i < Len(Traces[tr].ev)
Init == \E k \in 1..NT : tr = k /\ i = 0 /\ B!BInit(Traces[k].cfg)
Known(e) == e.c \in DOMAIN call
Same == UNCHANGED <<cfg, now, next, act, back, call>>
Observed ==
  /\ More /\ Ev.t = now
  /\ \/ Ev.e = "begin" /\ B!Begin(Ev.c)
     \/ Ev.e = "ask"   /\ Known(Ev) /\ B!Ask(Ev.c, Ev.m)
     \/ Ev.e = "ans"   /\ Known(Ev) /\ B!Answer(Ev.c, Ev.m, Ev.o)
     \/ Ev.e = "end"   /\ Known(Ev) /\ B!Return(Ev.c, Ev.o)
     \/ Ev.e = "idle"  /\ B!Quiet /\ Same
     \/ Ev.e = "shares" /\ B!Shares(Ev) /\ Same
  /\ i' = i + 1 /\ UNCHANGED tr
\* only choices that the trace goes on to show (an optimisation, not a restriction)
Asks(c) == {k \in (i + 1)..Len(Traces[tr].ev) : Traces[tr].ev[k].e = "ask" /\ Traces[tr].ev[k].c = c}
Foreseen(c) == call'[c].pc = "picked" =>
   \E k \in Asks(c) : (\A l \in Asks(c) : k <= l) /\ Traces[tr].ev[k].m = call'[c].cur
Hidden == /\ More
          /\ \/ \E c \in DOMAIN call : (B!Pick(c) /\ Foreseen(c)) \/ B!Failed(c)
             \/ B!ComeBack
             \/ B!Pass(Ev.t)
          /\ UNCHANGED <<tr, i>>
Next == (Observed \/ Hidden) /\ Explained(tr, i')
Bound == Open(tr, i)
ASSUME InitRegisters
=============================================================================
