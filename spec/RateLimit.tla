------------------------------ MODULE RateLimit ------------------------------
(* Fixed-window rate limiter. Calls begin, are decided in one critical section *)
(* that reads the clock and the counters together, and end.                    *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Calls, Nets, N, MaxWindow

VARIABLES now,    \* number of the current window
          win,    \* window the counters belong to
          cnt,    \* [Nets -> Nat] queries seen in that window
          call,   \* [Calls -> [pc, net, verdict, at]]
          read    \* [Calls -> window read before the critical section] (stale variant only)
vars == <<now, win, cnt, call, read>>

None == [pc |-> "idle", net |-> "none", verdict |-> "none", at |-> 0]

Init == /\ now = 1 /\ win = 0 /\ cnt = [n \in Nets |-> 0]
        /\ call = [c \in Calls |-> None] /\ read = [c \in Calls |-> 0]

Tick == now < MaxWindow /\ now' = now + 1 /\ UNCHANGED <<win, cnt, call, read>>

Begin(c, n) == /\ call[c].pc = "idle"
               /\ call' = [call EXCEPT ![c] = [pc |-> "called", net |-> n, verdict |-> "none", at |-> 0]]
               /\ read' = [read EXCEPT ![c] = now]
               /\ UNCHANGED <<now, win, cnt>>

\* what the critical section does when it believes the window to be w
DecideIn(c, w) ==
  LET base == IF win = w THEN cnt ELSE [n \in Nets |-> 0]
      n    == call[c].net IN
  /\ call[c].pc = "called"
  /\ win' = w
  /\ cnt' = [base EXCEPT ![n] = @ + 1]
  /\ call' = [call EXCEPT ![c] = [pc |-> "done", net |-> n, at |-> now,
                                  verdict |-> IF base[n] < N THEN "pass" ELSE "limit"]]
  /\ UNCHANGED <<now, read>>

Decide(c) == DecideIn(c, now)

Next == Tick \/ \E c \in Calls : (\E n \in Nets : Begin(c, n)) \/ Decide(c)
Spec == Init /\ [][Next]_vars

\* the same with the clock read before the critical section: violates AtMostN
NextStale == Tick \/ \E c \in Calls : (\E n \in Nets : Begin(c, n)) \/ DecideIn(c, read[c])

Passed(n, w)   == {c \in Calls : call[c].verdict = "pass" /\ call[c].net = n /\ call[c].at = w}
Limited(n, w)  == {c \in Calls : call[c].verdict = "limit" /\ call[c].net = n /\ call[c].at = w}
AtMostN        == \A n \in Nets, w \in 1..MaxWindow : Cardinality(Passed(n, w)) <= N
FirstNPass     == \A n \in Nets, w \in 1..MaxWindow : Limited(n, w) # {} => Cardinality(Passed(n, w)) = N
==============================================================================
