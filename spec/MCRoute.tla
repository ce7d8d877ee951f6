------------------------------- MODULE MCRoute -------------------------------
(* All lists of two small routes and all small queries.                        *)
EXTENDS Route, TLC
VARIABLES routes, q
AnyPat == [k |-> "any", s |-> <<>>]
R(t, p, n, b, a, inv) == [types |-> t, class |-> 0, name |-> p, source |-> n, ecs |-> <<>>, doh |-> AnyPat, listener |-> AnyPat, tls |-> AnyPat,
                          days |-> <<>>, before |-> b, after |-> a, inv |-> inv]
Rs == {R(t, p, n, b, a, inv) : t \in {<<>>, <<1>>, <<1, 28>>}, p \in {AnyPat, [k |-> "suffix", s |-> <<99>>]},
        n \in {<<>>, <<[a |-> <<10, 0, 0, 0>>, p |-> 9]>>}, b \in {-1, 5}, a \in {-1, 3}, inv \in BOOLEAN}
Qs == {[t |-> t, cl |-> 1, n |-> n, ecs |-> <<>>, src |-> s, doh |-> <<>>, listener |-> <<>>, tls |-> <<>>, day |-> 0, min |-> m] :
        t \in {1, 28, 15}, n \in {<<97, 99>>, <<97>>}, s \in {<<10, 1, 1, 1>>, <<10, 128, 0, 0>>}, m \in {2, 3, 5}}
Init == routes \in [1..2 -> Rs] /\ q \in Qs
Next == UNCHANGED <<routes, q>>
Flip(r) == [r EXCEPT !.inv = ~@]
InvertIsComplement == \A j \in 1..2 : Takes(routes[j], q) # Takes(Flip(routes[j]), q)
FirstWins == LET c == Chosen(routes, q) IN
             /\ c = 0 => \A j \in 1..2 : ~Takes(routes[j], q)
             /\ c > 0 => Takes(routes[c], q) /\ \A j \in 1..(c - 1) : ~Takes(routes[j], q)
LaterRoutesIrrelevant == Chosen(routes, q) = 1 => Chosen(<<routes[1]>>, q) = 1
==============================================================================
