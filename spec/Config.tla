------------------------------- MODULE Config -------------------------------
(* A configuration: when it is accepted, and the path a query takes through  *)
(* it. c.els are the elements (resolvers, groups, routers), c.ls the         *)
(* listeners. References are by identifier, "" is no reference.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ran(s) == {s[i] : i \in 1..Len(s)}
Elems(c) == Ran(c.els)
Ids(c) == {e.id : e \in Elems(c)}
El(c, id) == CHOOSE e \in Elems(c) : e.id = id
Refs(e) == (Ran(e.res) \cup {e.allow, e.block, e.limit, e.retry} \cup {e.routes[i].res : i \in 1..Len(e.routes)}) \ {""}

(****************************** acceptance *********************************)
Unique(c) == \A i, j \in 1..Len(c.els) : i # j => c.els[i].id # c.els[j].id
Complete(c) == \A e \in Elems(c) : Refs(e) \subseteq Ids(c)
\* elements that depend on themselves: what remains when those all of whose
\* references are settled are settled, over and over
RECURSIVE Settle(_, _)
Settle(c, done) == LET more == {e.id : e \in {x \in Elems(c) : Refs(x) \subseteq done}}
                   IN IF more \subseteq done THEN done ELSE Settle(c, done \cup more)
Acyclic(c) == Settle(c, {}) = Ids(c)

Many == {"round-robin", "fail-rotate", "fail-back", "fastest", "load-balance", "random"}
NoMember == {"static-responder", "static-template", "drop"}
One == {"blocklist", "blocklist-v2", "replace", "ttl-modifier", "truncate-retry", "request-dedup", "fastest-tcp",
        "ecs-modifier", "edns0-modifier", "syslog", "cache", "prefetch", "response-blocklist-ip", "response-blocklist-cidr",
        "response-blocklist-name", "client-blocklist", "response-minimize", "response-collapse", "rate-limiter",
        "query-log", "dnssec-validator", "dns64"}
Protocols == {"udp", "tcp", "dot", "doh", "doq", "dtls", "odoh"}
ListenProtocols == Protocols \cup {"admin"}
MembersOk(e) ==
    CASE e.kind = "router" -> TRUE
      [] e.kind = "resolver" -> e.type \in Protocols
      [] e.type \in Many -> Len(e.res) >= 1
      [] e.type \in One -> Len(e.res) = 1 /\ (e.type = "truncate-retry" => e.retry # "")
      [] e.type \in NoMember \cup {"lua"} -> TRUE
      [] OTHER -> FALSE
\* e.bad: a setting carries a text that is none of its values
Sound(c) ==
    /\ Unique(c) /\ Complete(c) /\ Acyclic(c)
    /\ \A e \in Elems(c) : MembersOk(e) /\ ~e.bad
    /\ \A l \in Ran(c.ls) : l.proto \in ListenProtocols /\ ~l.bad /\ (l.proto # "admin" => l.res \in Ids(c))
    /\ ~c.twice     \* the same table is written twice
    /\ ~c.broken    \* not in the syntax of the file, or a file is missing

(********************************** paths **********************************)
\* What comes back: a message, nothing at all, or an error. src is the place
\* that gave the address in it, cn the one that gave the alias, 0 for none.
Msg(rc, src, ttl) == [k |-> "msg", rc |-> rc, src |-> src, tc |-> FALSE, ttl |-> ttl, cn |-> 0, x |-> FALSE, ede |-> 0, aged |-> FALSE]
Nothing == [Msg(0, 0, 0) EXCEPT !.k = "nil"]
Error == [Msg(0, 0, 0) EXCEPT !.k = "err"]
Blocked(e) == [Msg(3, 0, 0) EXCEPT !.ede = e.s.ede]
NoAddr(e) == e.src = 0 /\ e.cn = 0

TTLof(u) == 100 + 100 * u
FromUpstream(u, b) ==
    CASE b = "ok" -> [Msg(0, u, TTLof(u)) EXCEPT !.cn = u, !.x = TRUE]
      [] b = "trunc" -> [Msg(0, u, TTLof(u)) EXCEPT !.cn = u, !.x = TRUE, !.tc = TRUE]
      [] b = "nx" -> Msg(3, 0, 0)
      [] b = "servfail" -> Msg(2, 0, 0)
      [] b = "refused" -> Msg(5, 0, 0)
      [] b = "empty" -> Msg(0, 0, 0)

Deliberate == {15, 16, 17}
Good(e, r) ==
    CASE r.k = "err" -> FALSE
      [] r.k = "nil" -> TRUE
      [] r.rc \in {4, 5} \/ (r.rc = 2 /\ e.s.servfail) -> FALSE
      [] ~e.s.empty -> TRUE
      [] OTHER -> r.src # 0 \/ (NoAddr(r) /\ r.ede \in Deliberate)

Out(v, r, st) == [v |-> v, r |-> r, st |-> st]
Set(st, id, x) == [st EXCEPT ![id] = x]
Before(v, os) == {Out(v \o o.v, o.r, o.st) : o \in os}

NoNet == [a |-> "-", l |-> 0]
Net24(a) == IF a = "198.51.100.7" THEN "198.51.100.0" ELSE a
EcsOf(e, q) ==
    LET own == [a |-> IF e.s.addr = "" THEN "127.77.0.0" ELSE e.s.addr, l |-> 24] IN
    CASE e.s.op = "add" -> own
      [] e.s.op = "add-if-missing" -> IF q.ecs = NoNet THEN own ELSE q.ecs
      [] e.s.op = "delete" -> NoNet
      [] e.s.op = "privacy" -> IF q.ecs = NoNet THEN NoNet ELSE [a |-> Net24(q.ecs.a), l |-> IF q.ecs.l < 24 THEN q.ecs.l ELSE 24]
      [] OTHER -> q.ecs

RouteTakes(r, q) ==
    LET m == /\ (r.types # <<>> => q.t \in Ran(r.types))
             /\ (r.name # "" => q.n = r.name)
             /\ (r.client # 0 => q.cl = r.client)
             /\ (r.listener # "" => q.lid = r.listener)
             /\ (r.ecs # "" => q.ecs.a = r.ecs)
    IN m # r.invert

\* the state an element starts with
Start(e) ==
    CASE e.type \in {"round-robin", "fail-rotate", "fail-back"} -> 1
      [] e.type = "random" -> 1..Len(e.res)
      [] e.type = "rate-limiter" -> [k \in 0..9 |-> 0]
      [] e.type = "cache" -> {}
      [] OTHER -> 0
StartAll(c) == [id \in Ids(c) |-> Start(El(c, id))]

RECURSIVE Eval(_, _, _, _)
RECURSIVE Rotate(_, _, _, _, _)
RECURSIVE AnyOf(_, _, _, _, _)

\* member after member, beginning with the active one, until one does
Rotate(c, e, q, st, i) ==
    LET n == Len(e.res)
        fixed == e.type = "fail-back" /\ e.s.reset = 0
        act == IF fixed THEN i ELSE st[e.id]
    IN UNION {IF Good(e, o.r) THEN {o}
              ELSE LET st2 == IF fixed THEN o.st ELSE Set(o.st, e.id, (act % n) + 1) IN
                   IF i = n THEN {Out(o.v, o.r, st2)}
                   ELSE Before(o.v, Rotate(c, e, q, st2, i + 1))
              : o \in Eval(c, e.res[act], q, st)}
\* one of those left, and another one if that fails
AnyOf(c, e, q, st, left) ==
    UNION {UNION {IF Good(e, o.r) THEN {o}
                  ELSE LET st2 == IF e.type = "random" THEN Set(o.st, e.id, o.st[e.id] \ {k}) ELSE o.st
                           rest == left \ {k} IN
                       IF rest = {} THEN {Out(o.v, IF e.type = "random" THEN Error ELSE o.r, st2)}
                       ELSE Before(o.v, AnyOf(c, e, q, st2, rest))
                  : o \in Eval(c, e.res[k], q, st)}
           : k \in left}
Orders(s) == {p \in [1..Cardinality(s) -> s] : \A a, b \in 1..Cardinality(s) : a # b => p[a] # p[b]}
\* all members at once, the first good answer counts
Fastest(c, e, q, st) ==
    LET m == [k \in 1..Len(e.res) |-> CHOOSE o \in Eval(c, e.res[k], q, st) : TRUE]
        fine(r) == r.k # "err" /\ (r.k = "nil" \/ r.rc # 2)
        asked == {k \in DOMAIN m : m[k].v # <<>>}
        winners == {k \in DOMAIN m : fine(m[k].r)}
        seqOf(p) == [i \in DOMAIN p |-> m[p[i]].v[1]]
    IN IF winners = {} THEN {Out(seqOf(p), m[k].r, st) : p \in Orders(asked), k \in DOMAIN m}
       ELSE UNION {UNION {{Out(seqOf(p), m[k].r, st) : p \in Orders(a \cup ({k} \cap asked))} : a \in SUBSET asked} : k \in winners}

Block(c, e, q, o) == IF e.block # "" THEN Before(o.v, Eval(c, e.block, q, o.st)) ELSE {Out(o.v, Blocked(e), o.st)}
First(c, e, q, st) == Eval(c, e.res[1], q, st)

Key(q) == [lab |-> q.lab, n |-> q.n, t |-> q.t, ecs |-> q.ecs]
Cached(c, e, q, st) ==
    LET hits == {x \in st[e.id] : x.key = Key(q)}
        miss == {Out(o.v, o.r, IF o.r.k = "msg" THEN Set(o.st, e.id, {x \in o.st[e.id] : x.key # Key(q)} \cup {[key |-> Key(q), r |-> o.r]}) ELSE o.st)
                 : o \in First(c, e, q, st)}
        sure == \A x \in hits : x.r.rc = 0 /\ x.r.src # 0 /\ ~x.r.tc /\ q.ecs = NoNet
        hit == {Out(<<>>, [x.r EXCEPT !.aged = TRUE, !.ede = d], st) : x \in hits, d \in {0} \cup {y.r.ede : y \in hits}}
    IN IF hits = {} THEN miss ELSE IF sure THEN hit ELSE hit \cup miss

Clamp(s, t) == LET a == IF t < s.min THEN s.min ELSE t IN IF s.max > 0 /\ a > s.max THEN s.max ELSE a

Eval(c, id, q, st) ==
    LET e == El(c, id) IN
    CASE e.kind = "resolver" ->
           IF e.s.dead THEN {Out(<<>>, Error, st)}
           ELSE {Out(<<[u |-> e.s.u, n |-> q.n, t |-> q.t, ecs |-> q.ecs, opt |-> q.opt, from |-> e.s.from, p |-> e.type]>>, FromUpstream(e.s.u, q.beh[e.s.u]), st)}
      [] e.kind = "router" ->
           LET k == {i \in 1..Len(e.routes) : RouteTakes(e.routes[i], q)} IN
           IF k = {} THEN {Out(<<>>, Error, st)}
           ELSE Eval(c, e.routes[CHOOSE i \in k : \A j \in k : i <= j].res, q, st)
      [] e.type = "static-responder" ->
           {Out(<<>>, [Msg(e.s.rc, e.s.src, e.s.ttl) EXCEPT !.tc = e.s.tc, !.ede = e.s.ede], st)}
      [] e.type = "drop" -> {Out(<<>>, Nothing, st)}
      [] e.type = "round-robin" -> Eval(c, e.res[st[id]], q, Set(st, id, (st[id] % Len(e.res)) + 1))
      [] e.type \in {"fail-rotate", "fail-back"} -> Rotate(c, e, q, st, 1)
      [] e.type = "random" -> IF st[id] = {} THEN {Out(<<>>, Error, st)} ELSE AnyOf(c, e, q, st, st[id])
      [] e.type = "load-balance" -> AnyOf(c, e, q, st, 1..Len(e.res))
      [] e.type = "fastest" -> Fastest(c, e, q, st)
      [] e.type = "blocklist" -> IF q.n \in Ran(e.s.block) THEN {Out(<<>>, Msg(3, 0, 0), st)} ELSE First(c, e, q, st)
      [] e.type = "blocklist-v2" ->
           IF q.n \in Ran(e.s.allow) THEN IF e.allow # "" THEN Eval(c, e.allow, q, st) ELSE First(c, e, q, st)
           ELSE IF q.n \in Ran(e.s.block) THEN Block(c, e, q, Out(<<>>, Nothing, st))
           ELSE First(c, e, q, st)
      [] e.type = "client-blocklist" ->
           IF q.cl \in Ran(e.s.clients) /\ ~(e.s.useecs /\ q.ecs # NoNet)
           THEN IF e.block # "" THEN Eval(c, e.block, q, st) ELSE {Out(<<>>, Msg(5, 0, 0), st)}
           ELSE First(c, e, q, st)
      [] e.type = "response-blocklist-name" ->
           UNION {IF o.r.k = "msg" /\ o.r.cn \in Ran(e.s.srcs) THEN Block(c, e, q, o) ELSE {o} : o \in First(c, e, q, st)}
      [] e.type = "response-blocklist-ip" ->
           UNION {IF o.r.k # "msg" \/ o.r.rc # 0 THEN {o}
                  ELSE LET hit == o.r.src # 0 /\ ((o.r.src \in Ran(e.s.srcs)) # e.s.invert) IN
                       IF e.s.filter
                       THEN LET r2 == IF hit THEN [o.r EXCEPT !.src = 0, !.ttl = 0] ELSE o.r IN
                            IF NoAddr(r2) THEN (IF e.block # "" THEN Before(o.v, Eval(c, e.block, q, o.st)) ELSE {Out(o.v, Msg(3, 0, 0), o.st)})
                            ELSE {Out(o.v, r2, o.st)}
                       ELSE IF hit THEN Block(c, e, q, o) ELSE {o}
                  : o \in First(c, e, q, st)}
      [] e.type = "truncate-retry" ->
           UNION {IF o.r.k = "msg" /\ o.r.tc THEN Before(o.v, Eval(c, e.retry, q, o.st)) ELSE {o} : o \in First(c, e, q, st)}
      [] e.type = "rate-limiter" ->
           LET key == IF e.s.shared THEN 0 ELSE q.cl
               st2 == Set(st, id, [st[id] EXCEPT ![key] = @ + 1]) IN
           IF st[id][key] < e.s.requests THEN First(c, e, q, st2)
           ELSE IF e.limit # "" THEN Eval(c, e.limit, q, st2) ELSE {Out(<<>>, Nothing, st2)}
      [] e.type = "ttl-modifier" ->
           {[o EXCEPT !.r.ttl = IF o.r.src # 0 THEN Clamp(e.s, o.r.ttl) ELSE 0] : o \in First(c, e, q, st)}
      [] e.type = "ecs-modifier" -> First(c, e, [q EXCEPT !.ecs = EcsOf(e, q)], st)
      [] e.type = "edns0-modifier" ->
           First(c, e, [q EXCEPT !.opt = IF e.s.op = "add" THEN e.s.data ELSE IF e.s.op = "delete" THEN "-" ELSE q.opt], st)
      [] e.type = "replace" -> First(c, e, [q EXCEPT !.n = IF q.n = e.s.from THEN e.s.to ELSE q.n], st)
      [] e.type = "response-minimize" -> {[o EXCEPT !.r.x = FALSE, !.r.ede = 0] : o \in First(c, e, q, st)}
      [] e.type = "response-collapse" ->
           {IF o.r.k # "msg" \/ o.r.rc # 0 THEN o
            ELSE IF o.r.src = 0 THEN Out(o.v, Msg(e.s.rc, 0, 0), o.st) ELSE [o EXCEPT !.r.cn = 0]
            : o \in First(c, e, q, st)}
      [] e.type = "cache" -> Cached(c, e, q, st)
      [] e.type = "lua" -> Eval(c, e.res[e.s.pick], q, st)
      [] e.type \in {"request-dedup", "query-log"} -> First(c, e, q, st)

(* What the client of a listener gets, and what every upstream was asked.    *)
Agrees(r, a) ==
    CASE r.k = "nil" -> a.k = "none"
      [] r.k = "err" -> a.k = "msg" /\ a.rc = 2 /\ a.src = 0
      [] OTHER -> /\ a.k = "msg" /\ a.rc = r.rc /\ a.src = r.src /\ a.tc = r.tc /\ a.cn = r.cn /\ a.x = r.x /\ a.ede = r.ede
                  /\ IF r.aged THEN a.ttl <= r.ttl /\ a.ttl + 5 >= r.ttl ELSE a.ttl = r.ttl
\* members of a fastest group that lost may be late, all else comes in order
Count(x, v) == Cardinality({k \in DOMAIN v : v[k] = x})
SameVisits(c, v, w) ==
    \/ v = w
    \/ /\ \E e \in Ran(c.els) : e.type = "fastest"
       /\ Len(v) = Len(w) /\ \A x \in Ran(v) : Count(x, v) = Count(x, w)
Outcomes(c, q, st) ==
    LET l == CHOOSE x \in Ran(c.ls) : x.id = q.lid
    IN IF l.clients # <<>> /\ q.cl \notin Ran(l.clients)
       THEN {Out(<<>>, Nothing, st), Out(<<>>, Msg(5, 0, 0), st)}
       ELSE Eval(c, l.res, q, st)
=============================================================================
