------------------------------ MODULE Transform -----------------------------
(* Elements that change a response on its way back, or make one up. A TTL is  *)
(* two 16-bit halves, a message has an answer, authority and additional part. *)
EXTENDS Modify
LOCAL INSTANCE TLC

Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Max2(a, b) == IF Le(a, b) THEN b ELSE a
Min2(a, b) == IF Le(a, b) THEN a ELSE b
OPTRR == 41
ARR == 1
AAAARR == 28
CNAMERR == 5

Records(m) == SelectSeq(m.an \o m.ns \o m.ex, LAMBDA x : x.t # OPTRR)
TTLs(m) == LET s == Records(m) IN [j \in 1..Len(s) |-> s[j].ttl]
RECURSIVE FoldT(_, _, _)
FoldT(f(_, _), s, b) == IF s = <<>> THEN b ELSE FoldT(f, TLCEval(Tail(s)), TLCEval(f(b, Head(s))))

\* average of TTLs by long division, rounded down
Sum(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Average(s) ==
  LET n == Len(s)
      t == FoldT(Sum, s, <<0, 0>>)
      low == ((t[1] % n) * 65536 + t[2]) \div n
  IN  <<(t[1] \div n) + (low \div 65536), low % 65536>>
Next1(v) == IF v[2] = 65535 THEN <<v[1] + 1, 0>> ELSE <<v[1], v[2] + 1>>

Clamp(op, v) == LET w == Max2(v, op.min) IN IF op.max = <<0, 0>> THEN w ELSE Min2(w, op.max)
\* what the records may carry before the bounds are applied, by position
Selected(op, s, j) ==
  CASE op.sel = "none"    -> {s[j]}
    [] op.sel = "lowest"  -> {FoldT(Min2, s, s[1])}
    [] op.sel = "highest" -> {FoldT(Max2, s, s[1])}
    [] op.sel = "first"   -> {s[1]}
    [] op.sel = "last"    -> {s[Len(s)]}
    [] op.sel = "average" -> {Average(s), Next1(Average(s))}
InBounds(op, v) == Le(op.min, v) /\ (op.max = <<0, 0>> \/ Le(v, op.max))

NoTTL(m) == LET strip(s) == [j \in 1..Len(s) |-> IF s[j].t = OPTRR THEN s[j] ELSE [s[j] EXCEPT !.ttl = <<0, 0>>]]
            IN  [m EXCEPT !.an = strip(m.an), !.ns = strip(m.ns), !.ex = strip(m.ex)]
TTLOk(op, a, got) ==
  /\ NoTTL(got) = NoTTL(a)
  /\ \E s \in {TTLs(a)}, g \in {TTLs(got)} :
         \A j \in 1..Len(s) : IF op.sel = "random" THEN InBounds(op, g[j])
                              ELSE \E v \in Selected(op, s, j) : g[j] = Clamp(op, v)

-----------------------------------------------------------------------------
Asked(q, x) == x.t = q.qt /\ x.c = q.qc
CollapseOk(op, q, a, got) ==
  IF a.rc # 0 THEN got = a
  ELSE LET kept == SelectSeq(a.an, LAMBDA x : Asked(q, x))
       IN  IF kept = <<>> THEN got.k = "msg" /\ got.id = q.id /\ got.q = q.q /\ got.rc = op.rc /\ got.qr /\ got.an = <<>>
           ELSE /\ [got EXCEPT !.an = <<>>] = [a EXCEPT !.an = <<>>]
                /\ Len(got.an) = Len(kept)
                /\ \A j \in 1..Len(kept) : Lower(got.an[j].n) = Lower(q.name) /\ [got.an[j] EXCEPT !.n = kept[j].n] = kept[j]

MinimizeOk(a, got) == got = [a EXCEPT !.ns = <<>>, !.ex = <<>>]

-----------------------------------------------------------------------------
\* RFC 6052: the address follows the prefix, skipping octet 8
Embed(pre, ip) ==
  LET n == pre.len \div 8
      \* positions of the four octets
      pos == IF n = 12 THEN <<13, 14, 15, 16>> ELSE [k \in 1..4 |-> IF n + k > 8 THEN n + k + 1 ELSE n + k]
  IN  [j \in 1..16 |-> IF \E k \in 1..4 : pos[k] = j THEN ip[CHOOSE k \in 1..4 : pos[k] = j]
                       ELSE IF j <= n THEN pre.ip[j] ELSE 0]

Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
\* (values bound by \E are computed once)
SameBag(s0, t0) == \E s \in {s0}, t \in {t0} : Len(s) = Len(t) /\ \A j \in 1..Len(s) : \E x \in {s[j]} : Count(s, x) = Count(t, x)
Short(x) == [n |-> x.n, t |-> x.t, c |-> x.c, ttl |-> x.ttl, ip |-> x.ip]
Shorts(s) == ([j \in 1..Len(s) |-> Short(s[j])])
RECURSIVE Synth(_, _)
Synth(as, ps) == IF as = <<>> THEN <<>>
                 ELSE [k \in 1..Len(ps) |-> [n |-> Head(as).n, t |-> AAAARR, c |-> Head(as).c, ttl |-> Head(as).ttl, ip |-> Embed(ps[k], Head(as).ip)]]
                      \o Synth(Tail(as), ps)
OfType(s, t) == SelectSeq(s, LAMBDA x : x.t = t)

\* an answer that calls for another query
Wanting(q, a) == q.qt = AAAARR /\ ~q.do /\ a.k = "msg" /\ a.rc = 0 /\ OfType(a.an, AAAARR) = <<>>
Usable(a) == a.k = "msg" /\ a.rc = 0 /\ OfType(a.an, ARR) # <<>>
DNS64Ok(op, r) ==
  IF ~Wanting(r.q, r.a[1]) THEN Len(r.up) = 1 /\ r.got = r.a[1]
  ELSE /\ Len(r.up) = 2 /\ r.up[2] = [w |-> 1, qt |-> ARR, h |-> r.q.h]
       /\ IF ~Usable(r.a[2]) THEN r.got = r.a[1]
          ELSE LET g == r.got  b == r.a[2]
               IN  /\ g.k = "msg" /\ g.id = r.q.id /\ g.q = r.q.q /\ g.qr /\ g.rc = 0
                   /\ OfType(g.an, CNAMERR) = OfType(b.an, CNAMERR)
                   /\ SameBag(Shorts(OfType(g.an, AAAARR)), Synth(OfType(b.an, ARR), op.prefixes))
                   /\ \A j \in 1..Len(g.an) : g.an[j].t \in {CNAMERR, AAAARR}
                   /\ g.ns = b.ns /\ g.ex = b.ex

-----------------------------------------------------------------------------
\* r.open: addresses that accept connections
Addresses(q, a) == (SelectSeq(a.an, LAMBDA x : x.t = q.qt))
Raise(op, x) == [x EXCEPT !.ttl = Max2(@, op.min)]
Strip(s) == ([j \in 1..Len(s) |-> [s[j] EXCEPT !.ttl = <<0, 0>>]])
ProbeOk(op, q, a, got, open) ==
  \E s \in {Addresses(q, a)}, g \in {Addresses(q, got)} :
  LET up(x) == \E j \in 1..Len(open) : open[j] = x.ip
      all == \A j \in 1..Len(s) : up(s[j])
      none == \A j \in 1..Len(s) : ~up(s[j])
  IN  IF q.qt \notin {ARR, AAAARR} \/ Len(s) < 2 THEN got = a
      ELSE /\ [got EXCEPT !.an = <<>>] = [a EXCEPT !.an = <<>>]
           /\ Len(got.an) = Len(a.an)
           /\ \A j \in 1..Len(a.an) : IF a.an[j].t = q.qt THEN got.an[j].t = q.qt ELSE got.an[j] = a.an[j]
           /\ \/ g = s /\ ~all
              \/ /\ SameBag(Strip(g), Strip(s))
                 /\ up(g[1]) /\ ~none
                 /\ g[1] = Raise(op, g[1])
                 /\ (op.all => all)
                 \* TTLs are as they were or raised
                 /\ \A j \in 1..Len(g) : \E k \in 1..Len(s) : g[j] \in {s[k], Raise(op, s[k])}
                 /\ (op.all /\ Len(s) <= 32 => \A j \in 1..Len(g) : g[j] = Raise(op, g[j]))

-----------------------------------------------------------------------------
RetryOk(r) ==
  IF r.a[1].k = "msg" /\ r.a[1].tc THEN Len(r.up) = 2 /\ r.up[2] = [w |-> 2, qt |-> r.q.qt, h |-> r.q.h] /\ r.got = r.a[2]
  ELSE Len(r.up) = 1 /\ r.got = r.a[1]

-----------------------------------------------------------------------------
\* templates: parts put together for the query
RECURSIVE Text(_, _)
Part(p, q) ==
  CASE p.k = "lit"   -> p.s
    [] p.k = "name"  -> q.name
    [] p.k = "id"    -> q.ids
    [] p.k = "type"  -> q.types
    [] p.k = "class" -> q.classes
    [] p.k = "all"   -> ReplaceAll(q.name, p.s, p.t)
    [] p.k = "pre"   -> IF Prefix(p.s, q.name) THEN SubSeq(q.name, Len(p.s) + 1, Len(q.name)) ELSE q.name
    [] p.k = "suf"   -> IF Suffix(p.s, q.name) THEN SubSeq(q.name, 1, Len(q.name) - Len(p.s)) ELSE q.name
Text(ps, q) == IF ps = <<>> THEN <<>> ELSE Part(Head(ps), q) \o Text(Tail(ps), q)

\* a configured record: fixed, or a text record from a template
Made(c, q, answer) ==
  IF c.fixed THEN [n |-> IF answer THEN q.name ELSE c.rec.n, t |-> c.rec.t, c |-> c.rec.c, ttl |-> c.rec.ttl, d |-> c.rec.d]
  ELSE [n |-> Text(c.name, q), t |-> 16, c |-> 1, ttl |-> c.ttl, x |-> Text(c.text, q)]
MadeOk(c, x, q, answer) ==
  LET m == Made(c, q, answer)
  IN  /\ x.n = m.n /\ x.t = m.t /\ x.c = m.c /\ x.ttl = m.ttl
      /\ IF c.fixed THEN x.d = m.d ELSE x.x = m.x
SectionOk(cs, s, q, answer) == Len(cs) = Len(s) /\ \A j \in 1..Len(cs) : MadeOk(cs[j], s[j], q, answer)

StaticOk(op, q, got) ==
  /\ got.k = "msg" /\ got.id = q.id /\ got.q = q.q /\ got.qr /\ got.rc = op.rc /\ got.tc = op.tc
  /\ SectionOk(op.an, got.an, q, ~op.template)
  /\ SectionOk(op.ns, got.ns, q, FALSE)
  /\ SectionOk(op.ex, SelectSeq(got.ex, LAMBDA x : x.t # OPTRR), q, FALSE)
  /\ got.ede = IF op.ede = <<>> THEN <<>> ELSE <<[code |-> op.ede[1].code, text |-> Text(op.ede[1].text, q)]>>

-----------------------------------------------------------------------------
Passed(a, got) == IF a.k = "msg" THEN got = a ELSE got.k = a.k
TransformOk(r) ==
  /\ r.untouched
  /\ CASE r.op.k = "drop"   -> r.up = <<>> /\ r.got.k = "nil"
       [] r.op.k = "static" -> r.up = <<>> /\ StaticOk(r.op, r.q, r.got)
       [] OTHER ->
            /\ Len(r.up) >= 1 /\ r.up[1] = [w |-> 1, qt |-> r.q.qt, h |-> r.q.h]
            /\ CASE r.op.k = "dns64" -> DNS64Ok(r.op, r)
                 [] r.op.k = "retry" -> RetryOk(r)
                 [] OTHER ->
                      /\ Len(r.up) = 1
                      /\ IF r.a[1].k # "msg" THEN Passed(r.a[1], r.got)
                         ELSE CASE r.op.k = "ttl"      -> TTLOk(r.op, r.a[1], r.got)
                                [] r.op.k = "collapse" -> CollapseOk(r.op, r.q, r.a[1], r.got)
                                [] r.op.k = "minimize" -> MinimizeOk(r.a[1], r.got)
                                [] r.op.k = "probe"    -> ProbeOk(r.op, r.q, r.a[1], r.got, r.open)
=============================================================================
