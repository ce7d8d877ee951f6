-------------------------------- MODULE Route --------------------------------
(* Which route a query takes. A route is                                       *)
(*  [types, class, name, source, ecs, doh, listener, tls, days, before, after, *)
(*   inv]; 0 / <<>> / "any" / -1 mean "not given". Times are minutes of the    *)
(* day, days 0..6 from Sunday. A query is [t, cl, n, ecs (addresses of the     *)
(* client-subnet options in order), src, doh, listener, tls, day, min].        *)
EXTENDS Integers, Sequences, FiniteSets, Addr, Pattern

Member(x, s) == \E j \in 1..Len(s) : s[j] = x
InNetwork(a, nets) == nets = <<>> \/ InNet(a, nets[1].a, nets[1].p)
Holds(r, q) ==
  /\ r.types = <<>> \/ Member(q.t, r.types)
  /\ r.class = 0 \/ r.class = q.cl
  /\ Matches(r.name, q.n)
  /\ InNetwork(q.src, r.source)
  /\ r.ecs = <<>> \/ (q.ecs # <<>> /\ InNetwork(q.ecs[Len(q.ecs)], r.ecs))
  /\ Matches(r.doh, q.doh)
  /\ Matches(r.listener, q.listener)
  /\ Matches(r.tls, q.tls)
  /\ r.days = <<>> \/ Member(q.day, r.days)
  /\ r.before = -1 \/ q.min < r.before
  /\ r.after = -1 \/ q.min >= r.after
Takes(r, q) == Holds(r, q) # r.inv
\* index of the route taken, 0 for none
Chosen(routes, q) ==
  LET S == {j \in 1..Len(routes) : Takes(routes[j], q)}
  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
\* what was observed: the resolvers asked (in order), whether the query and client
\* information arrived unmodified, and whether the caller got exactly the result
RouteOk(o) ==
  LET c == Chosen(o.routes, o.q) IN
  IF c = 0 THEN o.asked = <<>> /\ o.ret = "err"
  ELSE o.asked = <<c>> /\ o.unmod /\ o.ret = "same"
==============================================================================
