----------------------------- MODULE MCListener -----------------------------
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, req, open, replies
L == INSTANCE Listener
N == 3
IP == <<10, 0, 0, 1>>
Nets == {<<>>, <<[ip |-> <<10, 0, 0, 0>>, p |-> 8]>>, <<[ip |-> <<11, 0, 0, 0>>, p |-> 8]>>}
Cfgs == [kind : {"udp", "tcp", "dot", "doh", "doq", "odoh"}, src : {IP}, nets : Nets, id : {"l"}, addr : {"a"}, sni : {"s"}, proto : {"p"}]
Ci == [src |-> IP, proto |-> "p", lid |-> "l", laddr |-> "a", sni |-> "s", path |-> "/", qok |-> TRUE]
Reps == [k : {"dns"}, id : {TRUE}, q : {TRUE}, rc : {0, 1, 2, 5}, txt : {"t", "e"}, nrr : {0}, http : {0}]
        \cup [k : {"http"}, id : {FALSE}, q : {FALSE}, rc : {-1}, txt : {""}, nrr : {0}, http : {400, 403}]
Init == \E c \in Cfgs : L!LInit(c) /\ replies = [i \in 1..N |-> 0]
Next ==
  \/ UNCHANGED replies /\ Len(req) < N /\ open /\ \E c \in L!Classes : (c = "http" => L!Http) /\ L!Send(Len(req) + 1, c, "/")
  \/ UNCHANGED replies /\ \E i \in 1..Len(req) : L!Call(i, Ci)
  \/ UNCHANGED replies /\ \E i \in 1..Len(req), o \in {"ans", "err", "nil"} : L!Return(i, o, IF o = "ans" THEN "t" ELSE "")
  \/ \E i \in 1..Len(req), r \in Reps : L!Reply(i, r) /\ replies' = [replies EXCEPT ![i] = @ + 1]
  \/ UNCHANGED replies /\ \E i \in 0..Len(req) : L!Closed(i)
\* at most one reply to each request, none once the stream or connection is gone
OnceOnly == \A i \in 1..N : replies[i] <= 1
NoCallUnlessServed == L!NoCallUnlessServed
DropIsSilent == L!DropIsSilent
\* every request can still get its due: nothing the listener did so far rules out a settled end
Completable == \A i \in 1..Len(req) : L!Settled(i) \/ ENABLED (\/ L!Call(i, Ci)
     \/ \E o \in {"ans", "err", "nil"} : L!Return(i, o, "t")
     \/ \E r \in Reps : L!Reply(i, r) \/ L!Closed(i) \/ L!Closed(0))
=============================================================================
