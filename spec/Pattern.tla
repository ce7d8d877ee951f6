------------------------------- MODULE Pattern -------------------------------
(* Names and patterns as sequences of byte values. A pattern is [k, s]:        *)
(* "any", "exact", "prefix", "suffix" or "contains" the text s.                *)
EXTENDS Integers, Sequences
Prefix(s, n) == Len(s) <= Len(n) /\ SubSeq(n, 1, Len(s)) = s
Suffix(s, n) == Len(s) <= Len(n) /\ SubSeq(n, Len(n) - Len(s) + 1, Len(n)) = s
Contains(s, n) == \E j \in 1..(Len(n) - Len(s) + 1) : SubSeq(n, j, j + Len(s) - 1) = s
Matches(p, n) == CASE p.k = "any" -> TRUE
                   [] p.k = "exact" -> p.s = n
                   [] p.k = "prefix" -> Prefix(p.s, n)
                   [] p.k = "suffix" -> Suffix(p.s, n)
                   [] p.k = "contains" -> Contains(p.s, n)
LowerB(b) == IF b \in 65..90 THEN b + 32 ELSE b
Lower(n) == [j \in 1..Len(n) |-> LowerB(n[j])]
==============================================================================
