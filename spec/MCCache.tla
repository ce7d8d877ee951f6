------------------------------- MODULE MCCache -------------------------------
(* Bounded model of Cache: 3 keys (two of them name and sub-name), short TTLs. *)
EXTENDS Cache
CONSTANTS MaxTime, Caps, Trigger
VARIABLES ghost,  \* [key -> last storable response and its time]
          used,   \* [key -> number of the last operation that used it]
          n, last \* operation counter, last reply
mcvars == <<ccfg, now, lru, pfs, ghost, used, n, last>>
K(a, b) == [ln |-> a, do |-> b]
Keys == {K("p", FALSE), K("c.p", FALSE), K("p", TRUE)}
Anc(k) == IF k.ln = "c.p" THEN <<"p">> ELSE <<>>
RR(x, t) == [s |-> "an", a |-> TRUE, x |-> x, ttl |-> t]
M(rc, rrs) == [k |-> "msg", tc |-> FALSE, rc |-> rc, rrs |-> rrs]
Ups == {M(0, <<RR("r1", 1)>>), M(0, <<RR("r2", 3), RR("r3", 2)>>), M(3, <<>>), M(2, <<RR("r1", 9)>>),
        [k |-> "msg", tc |-> TRUE, rc |-> 0, rrs |-> <<RR("t", 2)>>], [k |-> "err"]}
Cfg(c) == [cap |-> c, neg |-> 2, caps |-> << <<3, 1>> >>, harden |-> TRUE, flush |-> TRUE, trigger |-> Trigger, elig |-> 1, shuffle |-> FALSE, gc |-> TRUE]
NoRep == [k |-> "none"]
Init == /\ \E c \in Caps : CInit(Cfg(c))
        /\ ghost = <<>> /\ used = <<>> /\ n = 0 /\ last = NoRep
Put(f, k, v) == (k :> v) @@ f
\* replies the specification allows for a hit
HitReply(k) == {[k |-> "msg", rc |-> o.L[1].rc, rrs |-> Aged(o.L[1], now), idok |-> TRUE, qok |-> TRUE] :
                  o \in {x \in Lookups(lru, k, Anc(k), now) : x.f = "own"}}
               \cup {[k |-> "msg", rc |-> 3, rrs |-> <<>>, idok |-> TRUE, qok |-> TRUE]}
DoHit(k) == \E r \in HitReply(k), pf \in {0, 1} :
              /\ Len(pfs) < 2 /\ Hit(k, Anc(k), r, pf)
              /\ last' = [k |-> "hit", key |-> k, rep |-> r]
              /\ used' = [x \in {lru'[j].key : j \in 1..Len(lru')} |->
                            IF lru'[1].key = x /\ x \in {k} \cup {[k EXCEPT !.ln = a] : a \in {Anc(k)[j] : j \in 1..Len(Anc(k))}}
                            THEN n + 1 ELSE IF x \in DOMAIN used THEN used[x] ELSE 0]
              /\ UNCHANGED ghost
DoMiss(k) == \E u \in Ups :
              /\ Miss(k, Anc(k), now, u, u)
              /\ last' = [k |-> "miss", key |-> k]
              /\ ghost' = IF Storable(u) THEN Put(ghost, k, [up |-> u, at |-> now]) ELSE ghost
              /\ used' = Put(used, k, n + 1)
DoRefresh == \E m \in 1..Len(pfs), u \in Ups :
              /\ RefreshEnd(m, u)
              /\ ghost' = IF lru' # lru THEN Put(ghost, pfs[m].key, [up |-> u, at |-> now]) ELSE ghost
              /\ used' = Put(used, pfs[m].key, n + 1) /\ last' = NoRep
DoFlush == Flush([k |-> "msg", rc |-> 0, rrs |-> <<>>, idok |-> TRUE, qok |-> TRUE]) /\ last' = [k |-> "flush"]
           /\ ghost' = <<>> /\ UNCHANGED used
Next == /\ n < 5 /\ n' = n + 1
        /\ \/ \E k \in Keys : DoHit(k) \/ DoMiss(k)
           \/ DoRefresh \/ DoFlush
           \/ \E d \in {500, 1000} : now < MaxTime /\ Pass(now + d) /\ UNCHANGED <<ghost, used>> /\ last' = NoRep
           \/ Collect /\ UNCHANGED <<ghost, used>> /\ last' = NoRep
\* a reply from the cache is the last stored response of that very key, aged, and alive
FromOwnKey == (last.k = "hit" /\ last.rep.rrs # <<>>) =>
   LET g == ghost[last.key] IN
   /\ last.rep.rc = g.up.rc
   /\ Len(last.rep.rrs) = Len(g.up.rrs)
   /\ \A j \in 1..Len(g.up.rrs) :
        /\ last.rep.rrs[j].x = g.up.rrs[j].x
        /\ last.rep.rrs[j].ttl = g.up.rrs[j].ttl - ((now - g.at) \div 1000)
        /\ last.rep.rrs[j].ttl >= 1
NegativeBounded == (last.k = "hit" /\ last.key \in DOMAIN ghost /\ last.rep.rrs = <<>> /\ ghost[last.key].up.rrs = <<>>
                     /\ last.key.ln # "c.p") =>
                    now <= ghost[last.key].at + 1000
CapacityHeld == ccfg.cap > 0 => Len(lru) <= ccfg.cap
NoDuplicates == \A i, j \in 1..Len(lru) : lru[i].key = lru[j].key => i = j
==============================================================================
