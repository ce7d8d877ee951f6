---- MODULE MCFailOver ----
EXTENDS FailOver
C(k, n, r, s) == [kind |-> k, n |-> n, reset |-> r, sf |-> s, ee |-> FALSE]
MCCfgs == {C("rotate", 3, 0, TRUE), C("rotate", 2, 0, FALSE), C("back", 3, 2, FALSE), C("back", 2, 1, TRUE), C("back", 2, 0, TRUE), C("back",1,1,FALSE)}
====
