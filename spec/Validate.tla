------------------------------ MODULE Validate ------------------------------
(* Rules by which a validator decides about one message, with signatures as   *)
(* symbols: a statement is known to come from the zone named in it or from    *)
(* nobody. Names are sequences of numbers, the top-level label first.         *)
EXTENDS Dnssec
CONSTANTS Delegations, \* proofs from above a delegation say nothing about names at or below it
          Wildcards,   \* an expanded wildcard needs a proof that the name does not exist
          Final        \* the end of the chain of aliases has to be there or be denied

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Less(Tail(a), Tail(b)))

\* denial records: [z, owner, next, types]
Covers(p, n) == IF Less(p.owner, p.next) THEN Less(p.owner, n) /\ Less(n, p.next) ELSE Less(p.owner, n) \/ Less(n, p.next)
Above(p, n, type) == /\ "NS" \in p.types /\ "SOA" \notin p.types /\ Anc(p.owner, n) /\ ~(p.owner = n /\ type = "DS")
Usable(p, n, type) == /\ Anc(cfg.zones[p.z].name, n)
                      /\ Delegations => ~Above(p, n, type)
                      /\ ~(type = "DS" /\ p.owner = n /\ "SOA" \in p.types /\ n # <<>>)

RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN 0 ELSE 1 + Common(Tail(a), Tail(b))
ImpliedEncloser(n, p) == LET x == Common(n, p.owner) y == Common(n, p.next) IN SubSeq(n, 1, IF x > y THEN x ELSE y)

Absent(ps, n, type) == {p \in ps : Usable(p, n, type) /\ Covers(p, n) /\ ~Anc(n, p.next)}
ProvesNX(ps, n, type) == \E p \in Absent(ps, n, type) : \E w \in ps :
                           Usable(w, n, type) /\ Covers(w, Append(ImpliedEncloser(n, p), Star))
Lacks(p, type) == type \notin p.types /\ "CNAME" \notin p.types
ProvesNoData(ps, n, type) ==
  \/ \E p \in ps : Usable(p, n, type) /\ p.owner = n /\ Lacks(p, type)
  \/ \E p \in ps : Usable(p, n, type) /\ Covers(p, n) /\ Anc(n, p.next)
  \/ \E p \in Absent(ps, n, type) : \E w \in ps :
        Usable(w, n, type) /\ w.owner = Append(ImpliedEncloser(n, p), Star) /\ Lacks(w, type)
Denied(ps, n, type, rc) == IF rc = 3 THEN ProvesNX(ps, n, type) ELSE ProvesNoData(ps, n, type)

\* a zone is unsigned if the one above says so
Unsigned(n, Known) == \E p \in Known : /\ Anc(p.owner, n) /\ "NS" \in p.types
                                       /\ "DS" \notin p.types /\ "SOA" \notin p.types

\* presented sets: [owner, src, z, type, toks, target], z = 0 if nobody's signature is on it
SetOk(x, ps) ==
  /\ x.z # 0 /\ Anc(cfg.zones[x.z].name, x.owner)
  /\ \/ x.owner = x.src
     \/ /\ x.src # <<>> /\ x.src[Len(x.src)] = Star /\ Anc(Front(x.src), x.owner) /\ Len(x.owner) >= Len(x.src)
        /\ Wildcards => \E p \in ps : /\ Usable(p, x.owner, x.type) /\ Covers(p, x.owner)
                                      /\ ImpliedEncloser(x.owner, p) = Front(x.src)

RECURSIVE ChainOk(_, _, _, _, _, _, _)
ChainOk(n, type, an, ps, rc, Known, left) ==
  \/ Unsigned(n, Known)
  \/ \E x \in an : x.owner = n /\ x.type = type /\ rc = 0
  \/ left > 0 /\ \E x \in an : x.owner = n /\ x.type = "CNAME" /\ ChainOk(x.target, type, an, ps, rc, Known, left - 1)
  \/ Denied(ps, n, type, rc)

Accepts(q, an, ps, rc, Known) ==
  /\ \A x \in an : SetOk(x, ps) \/ (x.z = 0 /\ Unsigned(x.owner, Known))
  /\ Final \/ an = {} => ChainOk(q.name, q.type, an, ps, rc, Known, 3)
=============================================================================
