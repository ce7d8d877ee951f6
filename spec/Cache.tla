-------------------------------- MODULE Cache --------------------------------
(* Response cache. Times are in milliseconds, TTLs in seconds.                 *)
(* A response is [k, tc, rc, rrs] with rrs a sequence of [s (section), a (is   *)
(* an address record), x (owner, type, data), ttl].                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ccfg,   \* [cap, neg, caps, harden, flush, trigger, elig, shuffle, gc]
          now,
          lru,    \* entries [key, rc, rrs, stored, expiry, elig], most recently used first
          pfs     \* refreshes under way [key, min], in order of start
cvars == <<ccfg, now, lru, pfs>>

CInit(c) == ccfg = c /\ now = 0 /\ lru = <<>> /\ pfs = <<>>

Neg == IF ccfg.neg = 0 THEN 60 ELSE ccfg.neg
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
TTLs(rrs) == {rrs[j].ttl : j \in 1..Len(rrs)}
CachedCodes == {0, 1, 2, 3, 4, 5}

\* ---- entries ---------------------------------------------------------------
Has(L, key) == \E j \in 1..Len(L) : L[j].key = key
Pos(L, key) == CHOOSE j \in 1..Len(L) : L[j].key = key
Without(L, key) == SelectSeq(L, LAMBDA e : e.key # key)
Age(e, t) == (t - e.stored) \div 1000
RecordsAlive(e, t) == \A j \in 1..Len(e.rrs) : e.rrs[j].ttl > Age(e, t)
CertainlyFresh(e, t) == t < e.expiry /\ RecordsAlive(e, t)
CertainlyStale(e, t) == t > e.expiry \/ ~RecordsAlive(e, t)
\* at the very instant of expiry of a record-less answer either is fine
Fresh(L, key, t) == IF Has(L, key) /\ ~CertainlyStale(L[Pos(L, key)], t)
                    THEN IF CertainlyFresh(L[Pos(L, key)], t) THEN {TRUE} ELSE {TRUE, FALSE}
                    ELSE {FALSE}
Touch(L, key) == <<L[Pos(L, key)]>> \o Without(L, key)
Aged(e, t) == [j \in 1..Len(e.rrs) |-> [e.rrs[j] EXCEPT !.ttl = @ - Age(e, t)]]

Bounded(L) == IF ccfg.cap > 0 /\ Len(L) > ccfg.cap THEN SubSeq(L, 1, ccfg.cap) ELSE L

Storable(r) == r.k = "msg" /\ ~r.tc /\ r.rc \in CachedCodes
Lifetime(r) ==
  LET base == IF r.rc = 2 THEN (IF Neg < 300 THEN Neg ELSE 300)
              ELSE IF Len(r.rrs) > 0 THEN MinOf(TTLs(r.rrs)) ELSE Neg
      lims == {ccfg.caps[j][2] : j \in {x \in 1..Len(ccfg.caps) : ccfg.caps[x][1] = r.rc}}
  IN MinOf({base} \cup lims)
Entry(key, r, t) ==
  [key |-> key, rc |-> r.rc, rrs |-> r.rrs, stored |-> t, expiry |-> t + 1000 * Lifetime(r),
   elig |-> r.rc # 2 /\ Len(r.rrs) > 0 /\ MinOf(TTLs(r.rrs)) > ccfg.elig]
Store(L, key, r, t) == IF Storable(r) THEN Bounded(<<Entry(key, r, t)>> \o Without(L, key)) ELSE L

\* garbage collection may drop expired entries at any time
Collected(L, t) == IF ~ccfg.gc THEN {L}
                   ELSE {SelectSeq(L, LAMBDA e : e.key \notin S) : S \in SUBSET {L[j].key : j \in {x \in 1..Len(L) : t > L[x].expiry}}}

\* ---- what a reply must look like ---------------------------------------------
SameBag(a, b) == \A j \in 1..Len(a) : Cardinality({i \in 1..Len(a) : a[i] = a[j]}) = Cardinality({i \in 1..Len(b) : b[i] = a[j]})
SameRecords(got, want) ==
  IF ccfg.shuffle THEN /\ Len(got) = Len(want) /\ SameBag(want, got)
                       /\ \A j \in 1..Len(want) : ~(want[j].a /\ want[j].s = "an") => got[j] = want[j]
                  ELSE got = want
Private(ret) == ret.idok /\ ret.qok

\* ---- lookups -------------------------------------------------------------------
\* outcome of looking up the key and, when hardening, its ancestors (nearest first):
\* the cache after it and what was found: "own", "nx" (below a non-existent name) or "none"
\* a stale entry found on the way may be dropped or left where it is
Gone(L, k) == {Without(L, k), L}
RECURSIVE Climb(_, _, _, _)
Climb(L, key, anc, t) ==
  IF anc = <<>> THEN {[L |-> L, f |-> "none"]}
  ELSE LET k == [key EXCEPT !.ln = anc[1]] IN
       UNION {IF fr THEN {[L |-> Touch(L, k), f |-> IF L[Pos(L, k)].rc = 3 THEN "nx" ELSE "none"]}
              ELSE UNION {Climb(M, key, Tail(anc), t) : M \in Gone(L, k)} : fr \in Fresh(L, k, t)}
Lookups(L, key, anc, t) ==
  UNION {IF fr THEN {[L |-> Touch(L, key), f |-> "own"]}
         ELSE UNION {IF ccfg.harden THEN Climb(M, key, anc, t) ELSE {[L |-> M, f |-> "none"]} : M \in Gone(L, key)}
         : fr \in Fresh(L, key, t)}

Remaining(e, t) == MinOf(TTLs(Aged(e, t)))
Refreshes(e, t) == /\ e.elig /\ ccfg.trigger > 0
                   /\ Remaining(e, t) < ccfg.trigger

\* a query answered without going upstream; pf: number of refreshes it started
Hit(key, anc, ret, pf) ==
  \E o \in Lookups(lru, key, anc, now) :
    /\ \/ /\ o.f = "own"
          /\ LET e == o.L[1] IN
             /\ ret.k = "msg" /\ ret.rc = e.rc /\ SameRecords(ret.rrs, Aged(e, now)) /\ Private(ret)
             /\ pf = (IF Refreshes(e, now) THEN 1 ELSE 0)
             /\ pfs' = IF pf = 1 THEN Append(pfs, [key |-> key, min |-> Remaining(e, now)]) ELSE pfs
       \/ /\ o.f = "nx" /\ ret.k = "msg" /\ ret.rc = 3 /\ ret.rrs = <<>> /\ Private(ret) /\ pf = 0
          /\ UNCHANGED pfs
    /\ lru' = o.L
    /\ UNCHANGED <<ccfg, now>>

\* a query that went upstream at time `now` and whose response came at time t
Miss(key, anc, t, up, ret) ==
  \E o \in Lookups(lru, key, anc, now) :
    /\ o.f = "none"
    /\ ret.k = up.k
    /\ up.k = "msg" => ret.rc = up.rc /\ ret.tc = up.tc /\ ret.rrs = up.rrs
    /\ now' = t
    /\ \E L \in Collected(o.L, t) : lru' = Store(L, key, up, t)
    /\ UNCHANGED <<ccfg, pfs>>

\* several questions: passed through
Bypass(t, up, ret) ==
  /\ ret.k = up.k /\ (up.k = "msg" => ret.rc = up.rc /\ ret.rrs = up.rrs)
  /\ now' = t /\ UNCHANGED <<ccfg, lru, pfs>>

Flush(ret) == /\ ccfg.flush /\ ret.k = "msg" /\ ret.rc = 0 /\ ret.rrs = <<>> /\ Private(ret)
              /\ lru' = <<>> /\ UNCHANGED <<ccfg, now, pfs>>

\* refresh number n completes
RefreshEnd(n, up) ==
  /\ n \in 1..Len(pfs)
  /\ LET p == pfs[n]
         good == /\ Storable(up) /\ up.rc \in {0, 3} /\ Len(up.rrs) > 0
                 /\ MinOf(TTLs(up.rrs)) >= p.min
     IN lru' = IF good THEN Store(lru, p.key, up, now) ELSE lru
  /\ UNCHANGED <<ccfg, now, pfs>>

Collect == \E L \in Collected(lru, now) : L # lru /\ lru' = L /\ UNCHANGED <<ccfg, now, pfs>>

Pass(t) == t > now /\ now' = t /\ UNCHANGED <<ccfg, lru, pfs>>
==============================================================================
