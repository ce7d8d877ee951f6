------------------------------ MODULE MCModify ------------------------------
(* The rules for client subnets on small messages: what a chain of elements   *)
(* can let out, and that the rules agree with each other.                     *)
EXTENDS Modify
VARIABLES q, src, step
Bytes == {0, 129, 255}
Addrs == {<<a, b, 0, 7>> : a, b \in Bytes}
Net(a, m) == [code |-> ECS, data |-> <<0, 1, m, 0>> \o SubSeq(Masked(a, m), 1, Octets(m))]
Options == {[code |-> 9, data |-> <<1>>]} \cup {Net(a, m) : a \in Addrs, m \in {0, 9, 16, 32}}
OptSeqs == {<<>>} \cup {<<o>> : o \in Options} \cup {<<o, p>> : o, p \in Options}
Queries == {[head |-> 0, name |-> <<46>>, opt |-> o] :
              o \in {<<>>} \cup {<<[size |-> 1, do |-> d, ver |-> 0, opts |-> s]>> : d \in {FALSE}, s \in OptSeqs}}
With(p, s) == [p EXCEPT !.opt = <<[size |-> 1, do |-> FALSE, ver |-> 0, opts |-> s]>>]

Ops == {[k |-> "ecs-del"], [k |-> "ecs-add", addr |-> <<>>, p4 |-> 9, p6 |-> 0], [k |-> "ecs-miss", addr |-> <<>>, p4 |-> 9, p6 |-> 0],
        [k |-> "ecs-priv", p4 |-> 9, p6 |-> 0]}
\* candidates for the forwarded query
Cands(p) == {p} \cup {With(p, Others(Opts(p), ECS)), With(p, Others(Opts(p), ECS) \o <<ForClient(src, 9, 0)>>),
                      With(p, [j \in 1..Len(Opts(p)) |-> IF Opts(p)[j].code = ECS
                                  THEN Subnet(1, Min(9, Opts(p)[j].data[3]), Pad(SubSeq(Opts(p)[j].data, 5, Len(Opts(p)[j].data)), 4)) ELSE Opts(p)[j]])}
Init == q \in Queries /\ src \in Addrs /\ step = <<>>
Next == /\ Len(step) < 2
        /\ \E op \in Ops : \E u \in Cands(q) : Forwarded(op, q, src, u) /\ q' = u /\ step' = Append(step, op.k)
        /\ UNCHANGED src
Bits(o) == SubSeq(o.data, 5, Len(o.data))
Exposed(p) == \E j \in 1..Len(Opts(p)) : Opts(p)[j].code = ECS /\ Masked(Bits(Opts(p)[j]), 9) # Bits(Opts(p)[j])
Count(p) == Len(These(Opts(p), ECS))
Safe == step # <<>> => LET l == step[Len(step)]
                       IN  /\ l \in {"ecs-del", "ecs-add", "ecs-priv"} => ~Exposed(q)
                           /\ l = "ecs-del" => Count(q) = 0
                           /\ l \in {"ecs-add"} => Count(q) = 1
                           /\ l = "ecs-miss" => Count(q) >= 1
                           /\ Len(step) = 2 /\ step[1] = "ecs-del" /\ l = "ecs-miss" => Count(q) = 1 /\ ~Exposed(q)
\* every query has a way through every element
Live == \A op \in Ops : \E u \in Cands(q) : Forwarded(op, q, src, u)
=============================================================================
