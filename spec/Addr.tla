-------------------------------- MODULE Addr --------------------------------
(* Addresses are byte sequences: 4 bytes for IPv4, 16 for IPv6.              *)
EXTENDS Naturals, Sequences
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16
             [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] OTHER -> 256
\* keep the first p bits
Mask(a, p) == [k \in 1..Len(a) |->
                 IF 8 * k <= p THEN a[k]
                 ELSE IF 8 * (k - 1) >= p THEN 0
                 ELSE (a[k] \div Pow2(8 * k - p)) * Pow2(8 * k - p)]
InNet(a, net, p) == Len(a) = Len(net) /\ Mask(a, p) = Mask(net, p)
==============================================================================
