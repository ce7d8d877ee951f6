------------------------------- MODULE Dnssec -------------------------------
(* A tree of signed and unsigned zones, and what a validating resolver may    *)
(* hand to its client when anybody on the path may alter any message. Truth   *)
(* is what the zones publish; a reply in a signed zone has to agree with it.  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Star   \* the wildcard label
VARIABLES cfg,   \* zones, their record sets, mode
          gen,   \* per zone: current generation of signing key and data
          keys,  \* key sets handed out by zones: zone, generation, end of life
          now

Zones == 1..Len(cfg.zones)
Anc(a, n) == Len(a) <= Len(n) /\ SubSeq(n, 1, Len(a)) = a
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* the zone that answers for a name; a delegation is answered for by the zone above
ZoneOf(n, t) ==
  LET m == IF t = "DS" /\ n # <<>> THEN Front(n) ELSE n
      S == {z \in Zones : Anc(cfg.zones[z].name, m)}
  IN  CHOOSE z \in S : \A y \in S : Len(cfg.zones[y].name) <= Len(cfg.zones[z].name)

Sets(z) == {s \in 1..Len(cfg.sets) : cfg.sets[s].z = z}
Exists(z, n) == \E s \in Sets(z) : Anc(n, cfg.sets[s].owner)
RECURSIVE Encloser(_, _)
Encloser(z, n) == IF n = <<>> \/ Exists(z, n) THEN n ELSE Encloser(z, Front(n))
Source(z, n) == IF Exists(z, n) THEN n ELSE Append(Encloser(z, n), Star)

At(z, n, t, g) == {s \in Sets(z) : /\ cfg.sets[s].owner = Source(z, n) /\ cfg.sets[s].type = t
                                   /\ cfg.sets[s].gen \in {0, g}}
Truth(z, n, t, g) ==
  IF ~Exists(z, Source(z, n)) THEN [k |-> "nx", s |-> 0]
  ELSE IF At(z, n, t, g) # {} THEN [k |-> "data", s |-> CHOOSE s \in At(z, n, t, g) : TRUE]
  ELSE IF At(z, n, "CNAME", g) # {} THEN [k |-> "cname", s |-> CHOOSE s \in At(z, n, "CNAME", g) : TRUE]
  ELSE [k |-> "nodata", s |-> 0]

\* nothing is protected in an unsigned zone, nor what the zone above says about it
\* ... and where a zone leaves unsigned delegations out of its proofs, any name it does not
\* vouch for could be one
OptedOut(z, n) == cfg.zones[z].optout /\ ~\E s \in Sets(z) : cfg.sets[s].type # "cut" /\ Anc(n, cfg.sets[s].owner)
Trusted(n, t) == /\ cfg.zones[ZoneOf(n, t)].secure /\ cfg.zones[ZoneOf(n, "")].secure
                 /\ ~OptedOut(ZoneOf(n, t), n)

-----------------------------------------------------------------------------
\* signatures of a past generation hold as long as its keys do
\* (the key set itself is signed with a key that stays)
Gens(z, type, t) == IF type = "DNSKEY" THEN 1..gen[z]
                    ELSE {gen[z]} \cup {k.gen : k \in {x \in keys : x.z = z /\ t <= x.until}}
Fresh(t) == \A k \in keys : k.until < t \/ k.gen = gen[k.z]

Has(an, n, s) == \E i \in 1..Len(an) : /\ an[i].owner = n /\ an[i].type = cfg.sets[s].type
                                       /\ an[i].toks = cfg.sets[s].toks

\* every record set of a signed zone is what that zone publishes
Genuine(an, t) ==
  \A i \in 1..Len(an) :
    LET z == ZoneOf(an[i].owner, an[i].type)
    IN  Trusted(an[i].owner, an[i].type) =>
          \E g \in Gens(z, an[i].type, t) : \E s \in At(z, an[i].owner, an[i].type, g) : cfg.sets[s].toks = an[i].toks

\* following the question through aliases gives what the zones say, as long as they are signed
RECURSIVE Follow(_, _, _, _, _, _)
Follow(n, type, an, rc, t, left) ==
  LET z == ZoneOf(n, type)
  IN  \/ ~Trusted(n, type)
      \/ left = 0
      \/ \E g \in Gens(z, type, t) :
           LET x == Truth(z, n, type, g)
           IN  CASE x.k = "data"   -> rc = 0 /\ Has(an, n, x.s)
                 [] x.k = "cname"  -> Has(an, n, x.s) /\ Follow(cfg.sets[x.s].target, type, an, rc, t, left - 1)
                 [] x.k = "nodata" -> rc = 0
                 [] x.k = "nx"     -> rc = 3

Faithful(q, an, rc, t) == Genuine(an, t) /\ Follow(q.name, q.type, an, rc, t, 9)

\* the whole way lies in signed zones
RECURSIVE Secure(_, _, _)
Secure(n, type, left) ==
  LET z == ZoneOf(n, type)
      x == Truth(z, n, type, gen[z])
  IN  left = 0 \/ (Trusted(n, type) /\ (x.k = "cname" => Secure(cfg.sets[x.s].target, type, left - 1)))
\* absence of a delegation's keys is authentic, but does not make what is below it so
RECURSIVE Loose(_, _, _)
Loose(n, type, left) ==
  LET z == ZoneOf(n, type)
      x == Truth(z, n, type, gen[z])
  IN  left > 0 /\ cfg.zones[z].secure /\ \/ ~Trusted(n, type) /\ ~OptedOut(z, n)
                                         \/ x.k = "cname" /\ Loose(cfg.sets[x.s].target, type, left - 1)

-----------------------------------------------------------------------------
SIGTYPES == {46, 47, 50}
Keep(r, x) == \/ r.do
              \/ x.t = 41 /\ r.edns
              \/ x.t # 41 /\ (x.t \notin SIGTYPES \/ x.t = r.qt)
Strip(r, s) == SelectSeq(s, LAMBDA x : Keep(r, x))

Delivered(r) ==
  /\ r.got.k = "msg" /\ r.got.rc = r.up.rc
  /\ r.got.an = Strip(r, r.up.an) /\ r.got.ns = Strip(r, r.up.ns) /\ r.got.ex = Strip(r, r.up.ex)
  /\ r.got.do => r.do
Refused(r) == r.got.k = "msg" /\ r.got.rc = 2 /\ r.got.an = <<>> /\ ~r.got.ad

Must(r) == r.clean /\ Fresh(r.t0)

ReplyOk(r) ==
  /\ r.sameq /\ r.updo
  /\ IF r.up.k # "msg" THEN r.got.k = r.up.k
     ELSE IF r.up.rc \notin {0, 3} THEN Delivered(r) /\ r.got.ad = r.up.ad
     ELSE \/ ~cfg.logonly /\ ~Must(r) /\ Refused(r)
          \/ /\ Delivered(r)
             /\ cfg.logonly \/ Faithful(r.q, r.sets, r.got.rc, r.t0)
             /\ IF Must(r)
                THEN \/ r.got.ad = (r.up.ad \/ Secure(r.q.name, r.q.type, 9))
                     \/ Loose(r.q.name, r.q.type, 9)
                ELSE r.got.ad => \/ r.up.ad
                                 \/ /\ Faithful(r.q, r.sets, r.got.rc, r.t0)
                                    /\ \/ Secure(r.q.name, r.q.type, 9)
                                       \/ Loose(r.q.name, r.q.type, 9) /\ \A k \in 1..Len(r.sets) : r.sets[k].type # "DS"

-----------------------------------------------------------------------------
DInit(c) == cfg = c /\ gen = [z \in 1..Len(c.zones) |-> 1] /\ keys = {} /\ now = 0
Fetch(z, g, ttl) == keys' = keys \cup {[z |-> z, gen |-> g, until |-> now + ttl]} /\ UNCHANGED <<cfg, gen, now>>
Roll(z) == gen' = [gen EXCEPT ![z] = @ + 1] /\ UNCHANGED <<cfg, keys, now>>
Reply(r) == ReplyOk(r) /\ UNCHANGED <<cfg, gen, keys, now>>
Pass(t) == t > now /\ now' = t /\ UNCHANGED <<cfg, gen, keys>>
=============================================================================
