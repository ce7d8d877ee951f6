---- MODULE MCBalance ----
EXTENDS Balance
C(k, n, r) == [kind |-> k, n |-> n, reset |-> r, sf |-> FALSE, ee |-> FALSE]
MCCfgs == {C("rr", 2, 0), C("rr", 3, 0), C("rnd", 2, 2), C("rnd", 3, 1), C("lb", 3, 0), C("fast", 2, 0)}
====
