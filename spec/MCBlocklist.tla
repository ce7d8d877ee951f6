----------------------------- MODULE MCBlocklist -----------------------------
(* Laws of the rule languages on small universes: order and duplicates do not  *)
(* matter, adding rules never unblocks, nesting is absorbed.                   *)
EXTENDS Blocklist
VARIABLES rules, n
Lab == {<<97>>, <<98>>}
Names == {<<a>> : a \in Lab} \cup {<<a, b>> : a \in Lab, b \in Lab}
DRules == {[k |-> k, l |-> l] : k \in {"exact", "sub", "below"}, l \in Names}
Init == rules \in [1..2 -> DRules] /\ n \in Names \cup {<<a>> \o m : a \in Lab, m \in Names}
Next == UNCHANGED <<rules, n>>
OrderFree == DomainsMatch(rules, FALSE, n) = DomainsMatch(<<rules[2], rules[1], rules[2]>>, FALSE, n)
Monotone == DomainsMatch(<<rules[1]>>, FALSE, n) => DomainsMatch(rules, FALSE, n)
SubIsUnion == \A l \in Names : DomainMatch([k |-> "sub", l |-> l], FALSE, n) =
                 (DomainMatch([k |-> "exact", l |-> l], FALSE, n) \/ DomainMatch([k |-> "below", l |-> l], FALSE, n))
SubMode == DomainsMatch(rules, FALSE, n) => DomainsMatch(rules, TRUE, n)
==============================================================================
