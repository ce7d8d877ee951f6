---------------------------- MODULE MCScriptPool ----------------------------
(* The pool as a channel of interpreters: a caller takes one, runs, gives it  *)
(* back however the run ended. With GiveBack off for failing runs the pool    *)
(* drains and callers wait for ever.                                          *)
EXTENDS ScriptPool, TLC
CONSTANTS N, Callers, GiveBack
VARIABLES free
mvars == <<size, calls, free>>
Acts == {"pass", "raise", "make"}
Ups == {[k |-> "msg", tag |-> "u"], [k |-> "err", tag |-> "e"]}
Init == PInit(N) /\ free = N
MTake(c) == free > 0 /\ Take(c) /\ free' = free - 1
Outs == {[k |-> "msg", tag |-> "u", err |-> ""], [k |-> "none", tag |-> "", err |-> "e"], [k |-> "msg", tag |-> "own", err |-> ""]}
Held == {c \in DOMAIN calls : calls[c].st \in {"run", "up", "back"}}
MReturn(c) == calls[c].st # "wait" /\ \E o \in Outs : Return(c, o, "own") /\ free' = IF GiveBack \/ o.err = "" THEN free + 1 ELSE free
Next == \/ \E c \in Callers, a \in Acts : Arrive(c, a) /\ UNCHANGED free
        \/ \E c \in DOMAIN calls : \/ MTake(c)
                                   \/ Ask(c) /\ UNCHANGED free
                                   \/ \E u \in Ups : Answered(c, u) /\ UNCHANGED free
                                   \/ MReturn(c)
Limit == Cardinality(Held) <= N
Capacity == free + Cardinality(Held) = N
Spec == Init /\ [][Next]_mvars /\ WF_mvars(\E c \in DOMAIN calls : MTake(c)) /\ WF_mvars(\E c \in DOMAIN calls : Ask(c) /\ UNCHANGED free)
             /\ WF_mvars(\E c \in DOMAIN calls, u \in Ups : Answered(c, u) /\ UNCHANGED free) /\ WF_mvars(\E c \in DOMAIN calls : MReturn(c))
Served == [](Live # {} => <>(\E c \in DOMAIN calls : calls[c].st = "ret"))
EveryoneServed == <>[](DOMAIN calls # {} => \A c \in DOMAIN calls : calls[c].st = "ret")
=============================================================================
