---------------------------- MODULE MCTransform ----------------------------
(* The arithmetic and the chaining of response rules on small values: TTL     *)
(* bounds always hold, the average lies between the extremes, embedded IPv4   *)
(* addresses can be read back from every prefix length.                       *)
EXTENDS Transform
VARIABLES s, op, pre, ip, phase
Vals == {<<0, 0>>, <<0, 1>>, <<0, 65535>>, <<1, 0>>, <<65535, 65535>>}
Bounds == {<<a, b>> \in Vals \X Vals : b = <<0, 0>> \/ Le(a, b)}
Rec(t) == [n |-> <<97>>, t |-> 1, c |-> 1, ttl |-> t, d |-> 0, ip |-> <<1, 2, 3, 4>>, x |-> <<>>]
M(q) == [k |-> "msg", id |-> 1, an |-> [j \in 1..Len(q) |-> Rec(q[j])], ns |-> <<>>, ex |-> <<>>]
Seqs == UNION {[1..n -> Vals] : n \in 1..3}
Lens == {32, 40, 48, 56, 64, 96}
Init == /\ s \in Seqs
        /\ \E b \in Bounds, sel \in {"none", "lowest", "highest", "first", "last", "average"} : op = [sel |-> sel, min |-> b[1], max |-> b[2]]
        /\ pre \in {[len |-> n, ip |-> [j \in 1..16 |-> IF j <= n \div 8 THEN 32 + j ELSE 0]] : n \in Lens}
        /\ ip = <<200, 201, 202, 203>>
        /\ phase = 0
\* any result the rule allows
Next == /\ phase = 0 /\ phase' = 1
        /\ \E g \in [1..Len(s) -> {Clamp(op, v) : v \in UNION {Selected(op, s, j) : j \in 1..Len(s)}}] : TTLOk(op, M(s), M(g)) /\ s' = g
        /\ UNCHANGED <<op, pre, ip>>
\* reading an address back per RFC 6052: the four octets after the prefix, octet 8 skipped
Back(p, a) == LET n == p.len \div 8
                  rest == SelectSeq([j \in 1..16 |-> j], LAMBDA j : j > n /\ (j # 9 \/ n = 12))
              IN  [k \in 1..4 |-> a[rest[k]]]
Safe == /\ phase = 1 => \A j \in 1..Len(s) : InBounds(op, s[j])
        /\ phase = 0 /\ op.sel = "average" => Le(FoldT(Min2, s, s[1]), Average(s)) /\ Le(Average(s), FoldT(Max2, s, s[1]))
        /\ LET e == Embed(pre, ip)
           IN  Back(pre, e) = ip /\ (pre.len < 96 => e[9] = 0) /\ SubSeq(e, 1, pre.len \div 8) = SubSeq(pre.ip, 1, pre.len \div 8)
\* selections other than "none" leave one value for all
One == phase = 1 /\ op.sel \notin {"none", "average"} => \A j \in 1..Len(s) : s[j] = s[1]
=============================================================================
