------------------------------ MODULE Blocklist ------------------------------
(* What lists match and what is done about it. Text is a sequence of bytes, a  *)
(* name [l |-> its labels, txt |-> its text with the final dot].               *)
EXTENDS Integers, Sequences, FiniteSets, Addr, Pattern

LowerL(l) == [j \in 1..Len(l) |-> Lower(l[j])]
EndsIn(n, l) == Len(l) <= Len(n) /\ SubSeq(n, Len(n) - Len(l) + 1, Len(n)) = l

\* ---- domain rules: [k, l] ------------------------------------------------------
DomainMatch(r, sub, labels) ==
  LET n == LowerL(labels)
      l == LowerL(r.l)
      k == IF sub /\ r.k = "exact" THEN "sub" ELSE r.k
  IN CASE k = "exact" -> n = l
       [] k = "sub"   -> EndsIn(n, l)
       [] k = "below" -> EndsIn(n, l) /\ Len(n) > Len(l)
DomainsMatch(rules, sub, labels) == \E j \in 1..Len(rules) : DomainMatch(rules[j], sub, labels)
DomainCase(o) == \A j \in 1..Len(o.names) : o.hit[j] = DomainsMatch(o.rules, o.sub, o.names[j])

\* ---- networks: [a, p] ------------------------------------------------------------
Listed(nets, ip) == \E j \in 1..Len(nets) : InNet(ip, nets[j].a, nets[j].p)
NetCase(o) == \A j \in 1..Len(o.ips) : o.hit[j] = Listed(o.nets, o.ips[j])

\* ---- name lists --------------------------------------------------------------------
\* list: [f |-> format, rules]; query or record name: [l, txt]; t: query type; mac: device address or <<>>
RECURSIVE Concat(_, _)
Concat(f, n) == IF n = 0 THEN <<>> ELSE Concat(f, n - 1) \o f[n]
HostNames(rules, rev) == Concat([j \in 1..Len(rules) |-> IF rules[j].rev = LowerL(rev) THEN rules[j].names ELSE <<>>], Len(rules))
HostLists(r, labels) == \E j \in 1..Len(r.labels) : LowerL(r.labels[j]) = LowerL(labels)
HostAddrs(rules, labels, fam) ==
  Concat([j \in 1..Len(rules) |-> IF HostLists(rules[j], labels) /\ Len(rules[j].ip) = fam THEN <<rules[j].ip>> ELSE <<>>], Len(rules))
PTRType == 12
ListMatch(L, q) ==
  CASE L.f = "domain"    -> DomainsMatch(L.rules, FALSE, q.l)
    [] L.f = "domainsub" -> DomainsMatch(L.rules, TRUE, q.l)
    [] L.f = "regexp"    -> \E j \in 1..Len(L.rules) : Matches(L.rules[j], Lower(q.txt))
    [] L.f = "mac"       -> q.mac # <<>> /\ \E j \in 1..Len(L.rules) : L.rules[j] = q.mac
    [] L.f = "hosts"     -> IF q.t = PTRType THEN \E j \in 1..Len(L.rules) : L.rules[j].rev = LowerL(q.l)
                            ELSE \E j \in 1..Len(L.rules) : HostLists(L.rules[j], q.l)
AnyMatch(Ls, q) == \E j \in 1..Len(Ls) : ListMatch(Ls[j], q)
First(Ls, q) == CHOOSE j \in 1..Len(Ls) : ListMatch(Ls[j], q) /\ \A k \in 1..(j - 1) : ~ListMatch(Ls[k], q)
UpTo(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s

\* the reply the list itself gives: [rc, an (sequence of [t, d])]
OwnReply(ret, rc, an) == ret.k = "own" /\ ret.rc = rc /\ ret.an = an /\ ret.priv
Forwarded(o, who) == o.asked = <<who>> /\ o.unmod /\ o.ret.k = "same"

QueryCase(o) ==
  IF AnyMatch(o.allow, o.q) THEN Forwarded(o, IF o.allowres THEN "allow" ELSE "up")
  ELSE IF ~AnyMatch(o.block, o.q) THEN Forwarded(o, "up")
  ELSE LET L == o.block[First(o.block, o.q)]
           names == IF L.f = "hosts" /\ o.q.t = PTRType THEN UpTo(HostNames(L.rules, o.q.l), 10) ELSE <<>>
           addrs == IF L.f = "hosts" /\ o.q.t = 1 THEN HostAddrs(L.rules, o.q.l, 4)
                    ELSE IF L.f = "hosts" /\ o.q.t = 28 THEN HostAddrs(L.rules, o.q.l, 16) ELSE <<>>
       IN IF names # <<>> THEN o.asked = <<>> /\ OwnReply(o.ret, 0, [j \in 1..Len(names) |-> [t |-> PTRType, d |-> names[j]]])
          ELSE IF o.blockres THEN Forwarded(o, "block")
          ELSE /\ o.asked = <<>>
               /\ IF addrs # <<>> THEN OwnReply(o.ret, 0, [j \in 1..Len(addrs) |-> [t |-> o.q.t, d |-> addrs[j]]])
                  ELSE OwnReply(o.ret, 3, <<>>)

\* ---- clients -------------------------------------------------------------------------
ClientCase(o) ==
  LET ip == IF o.useecs /\ o.ecs # <<>> THEN o.ecs[1] ELSE o.src IN
  IF ip # <<>> /\ Listed(o.nets, ip)
  THEN IF o.blockres THEN Forwarded(o, "block") ELSE o.asked = <<>> /\ OwnReply(o.ret, 5, <<>>)
  ELSE Forwarded(o, "up")

\* ---- responses -----------------------------------------------------------------------
\* response records: [s (section), ip (<<>> if not an address), txts (names in it, [l, txt]), x (identity)]
Blocked(o) == IF o.blockres THEN o.asked = <<"up", "block">> /\ o.unmod /\ o.ret.k = "alt"
              ELSE o.asked = <<"up">> /\ OwnReply(o.ret, 3, <<>>)
Unchanged(o) == o.asked = <<"up">> /\ o.ret.k = "same"
AddrHit(o, r) == r.ip # <<>> /\ (Listed(o.nets, r.ip) # o.inv)
Kept(o) == SelectSeq(o.rrs, LAMBDA r : ~AddrHit(o, r))
Xs(rrs) == [j \in 1..Len(rrs) |-> <<rrs[j].s, rrs[j].x>>]
ResponseIPCase(o) ==
  IF o.up # "msg" \/ o.rc # 0 THEN Unchanged(o)
  ELSE IF ~o.filter THEN IF \E j \in 1..Len(o.rrs) : AddrHit(o, o.rrs[j]) THEN Blocked(o) ELSE Unchanged(o)
  ELSE IF ~\E j \in 1..Len(Kept(o)) : Kept(o)[j].s = "an" THEN Blocked(o)
  ELSE o.asked = <<"up">> /\ o.ret.k \in {"same", "part", "own"} /\ o.ret.rc = 0 /\ o.ret.priv /\ o.ret.xs = Xs(Kept(o))
NameHit(o, r) == r.txts # <<>> /\ ((\E j \in 1..Len(r.txts) : AnyMatch(o.block, [l |-> r.txts[j].l, txt |-> r.txts[j].txt, t |-> 0, mac |-> <<>>])) # o.inv)
ResponseNameCase(o) ==
  IF o.up # "msg" THEN Unchanged(o)
  ELSE IF \E j \in 1..Len(o.rrs) : NameHit(o, o.rrs[j]) THEN Blocked(o) \/ (o.rc # 0 /\ Unchanged(o))
  ELSE Unchanged(o)

\* one response judged while the list changes: record j is on version recs[j] only
OneVersion(o) ==
  \E v \in 1..2 :
    LET kept == SelectSeq(o.recs, LAMBDA x : x # v) IN
    IF o.filter THEN o.out = [rc |-> 0, kept |-> kept]
    ELSE o.out = IF Len(kept) < Len(o.recs) THEN [rc |-> 3, kept |-> <<>>] ELSE [rc |-> 0, kept |-> o.recs]

BlocklistCase(o) ==
  CASE o.k = "domain" -> DomainCase(o) [] o.k = "net" -> NetCase(o) [] o.k = "query" -> QueryCase(o)
    [] o.k = "client" -> ClientCase(o) [] o.k = "respip" -> ResponseIPCase(o) [] o.k = "respname" -> ResponseNameCase(o)
    [] o.k = "mix" -> OneVersion(o)
==============================================================================
