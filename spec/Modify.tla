------------------------------- MODULE Modify -------------------------------
(* Elements that change a query on its way to the upstream: client subnet,    *)
(* other EDNS0 options, the queried name. Options are [code, data] with data  *)
(* the bytes on the wire.                                                     *)
EXTENDS Pattern
LOCAL INSTANCE FiniteSets

ECS == 8
Min(a, b) == IF a < b THEN a ELSE b

\* the first p bits of a
Keep(n, b) == (b \div 2 ^ (8 - n)) * 2 ^ (8 - n)
Masked(a, p) == [j \in 1..Len(a) |-> IF p >= 8 * j THEN a[j] ELSE IF p <= 8 * (j - 1) THEN 0 ELSE Keep(p - 8 * (j - 1), a[j])]
Octets(p) == (p + 7) \div 8
Pad(a, n) == [j \in 1..n |-> IF j <= Len(a) THEN a[j] ELSE 0]

\* a client subnet option as bytes: family, prefix, scope and as much of the address as needed
Subnet(fam, p, a) == [code |-> ECS, data |-> <<0, fam, p, 0>> \o SubSeq(Masked(a, p), 1, Octets(p))]
ForClient(a, p4, p6) == IF Len(a) = 4 THEN Subnet(1, p4, a) ELSE Subnet(2, p6, a)

Others(opts, code) == SelectSeq(opts, LAMBDA o : o.code # code)
These(opts, code) == SelectSeq(opts, LAMBDA o : o.code = code)

Opts(q) == IF q.opt = <<>> THEN <<>> ELSE q.opt[1].opts
\* everything but the options
SameOpt(q, u) == IF q.opt = <<>> THEN u.opt # <<>> /\ ~u.opt[1].do /\ u.opt[1].ver = 0
                 ELSE u.opt # <<>> /\ [u.opt[1] EXCEPT !.opts = <<>>] = [q.opt[1] EXCEPT !.opts = <<>>]

-----------------------------------------------------------------------------
\* what the options of the forwarded query may be
Deleted(code, q, u) == IF q.opt = <<>> THEN u.opt = <<>>
                       ELSE SameOpt(q, u) /\ Opts(u) = Others(Opts(q), code)
Added(o, q, u) == /\ SameOpt(q, u)
                  /\ Others(Opts(u), o.code) = Others(Opts(q), o.code)
                  /\ These(Opts(u), o.code) = <<o>>

\* an option as it leaves: no address bits beyond the prefix, those within it as they were
Private(p4, p6, o, n) ==
  IF o.code # ECS \/ Len(o.data) < 4 \/ o.data[2] \notin {1, 2} \/ o.data[1] # 0 THEN n = o
  ELSE LET fam == o.data[2]
           p == IF fam = 1 THEN p4 ELSE p6
           len == IF fam = 1 THEN 4 ELSE 16
           a == Pad(SubSeq(o.data, 5, Len(o.data)), len)
       IN  \E m \in {p, Min(p, o.data[3])} :
             n = [code |-> ECS, data |-> <<0, fam, m, o.data[4]>> \o SubSeq(Masked(a, p), 1, Octets(m))]

-----------------------------------------------------------------------------
\* name replacement, expressions in order
RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(n, s, t) ==
  IF Len(n) < Len(s) THEN n
  ELSE IF SubSeq(n, 1, Len(s)) = s THEN t \o ReplaceAll(SubSeq(n, Len(s) + 1, Len(n)), s, t)
  ELSE <<n[1]>> \o ReplaceAll(Tail(n), s, t)

DOT == 46
Single(n) == Len(n) > 1 /\ n[Len(n)] = DOT /\ \A j \in 1..(Len(n) - 1) : n[j] # DOT
Replaced(n, e) ==
  CASE e.k = "all"    -> ReplaceAll(n, e.s, e.t)
    [] e.k = "prefix" -> IF Prefix(e.s, n) THEN e.t \o SubSeq(n, Len(e.s) + 1, Len(n)) ELSE n
    [] e.k = "suffix" -> IF Suffix(e.s, n) THEN SubSeq(n, 1, Len(n) - Len(e.s)) \o e.t ELSE n
    [] e.k = "exact"  -> IF n = e.s THEN e.t ELSE n
    \* a name of one label gets a domain
    [] e.k = "append" -> IF Single(n) THEN n \o e.t ELSE n
RECURSIVE ReplacedBy(_, _)
ReplacedBy(n, es) == IF es = <<>> THEN n ELSE ReplacedBy(Replaced(n, Head(es)), Tail(es))

Restored(old, new, a) ==
  [a EXCEPT !.qn = IF a.qn = <<>> THEN a.qn ELSE <<old>> \o Tail(a.qn),
            !.an = [j \in 1..Len(a.an) |-> IF Lower(a.an[j].name) = Lower(new) THEN [a.an[j] EXCEPT !.name = old] ELSE a.an[j]]]

-----------------------------------------------------------------------------
Forwarded(op, q, src, u) ==
  /\ u.head = q.head
  /\ u.name = (IF op.k = "replace" THEN ReplacedBy(q.name, op.exps) ELSE q.name)
  /\ CASE op.k \in {"none", "replace"} -> u.opt = q.opt
       [] op.k = "ecs-del"  -> Deleted(ECS, q, u)
       [] op.k = "edns-del" -> Deleted(op.code, q, u)
       [] op.k = "edns-add" -> Added([code |-> op.code, data |-> op.data], q, u)
       [] op.k = "ecs-add"  -> Added(ForClient(IF op.addr = <<>> THEN src ELSE op.addr, op.p4, op.p6), q, u)
       [] op.k = "ecs-miss" -> IF These(Opts(q), ECS) # <<>> THEN u.opt = q.opt
                               ELSE Added(ForClient(IF op.addr = <<>> THEN src ELSE op.addr, op.p4, op.p6), q, u)
       [] op.k = "ecs-priv" -> IF q.opt = <<>> THEN u.opt = <<>>
                               ELSE /\ SameOpt(q, u) /\ Len(Opts(u)) = Len(Opts(q))
                                    /\ \A j \in 1..Len(Opts(q)) : Private(op.p4, op.p6, Opts(q)[j], Opts(u)[j])

Returned(op, q, a, got) ==
  IF a.k # "msg" THEN got.k = a.k
  ELSE LET new == ReplacedBy(q.name, op.exps)
       IN  got = IF op.k = "replace" /\ new # q.name THEN Restored(q.name, new, a) ELSE a

\* one query through one element
ModifyOk(r) ==
  /\ Len(r.up) = 1
  /\ Forwarded(r.op, r.q, r.src, r.up[1])
  /\ r.untouched /\ r.sameci
  /\ Returned(r.op, r.q, r.a, r.got)
=============================================================================
