------------------------------- MODULE Reply -------------------------------
(* What a listener may do to the resolver's answer on its way to the client: *)
(* shorten it where the transport has a limit, and pad it where encrypted.   *)
EXTENDS Integers, Sequences
BLOCK == 468
Datagram == {"udp", "dtls"}
Padded   == {"dot", "dtls", "doh"}
Plain    == {"udp", "tcp"}
Max(a, b) == IF a > b THEN a ELSE b

\* the most the client can take
Limit(r) == IF r.kind \in Datagram THEN (IF r.edns THEN Max(r.adv, 512) ELSE 512) ELSE 65535

Range(s) == {s[k] : k \in 1..Len(s)}
Sub(s, t) == s = t \/ (Len(s) <= Len(t) /\ Range(s) \subseteq Range(t))
Complete(r) == r.got.an = r.a.an /\ r.got.ns = r.a.ns /\ r.got.ex = r.a.ex

\* r.lo: encoded size of the answer as it is, r.hi: with everything that may be added except padding bytes;
\* both compressed
SizeOk(r) ==
  /\ r.got.size <= Limit(r)
  /\ r.hi <= Limit(r) => Complete(r)
  /\ r.lo > Limit(r)  => ~Complete(r)
  /\ Sub(r.got.an, r.a.an) /\ Sub(r.got.ns, r.a.ns) /\ Sub(r.got.ex, r.a.ex)
  /\ r.got.tc = (r.a.tc \/ ~Complete(r))

HeadOk(r) == r.got.head = r.a.head /\ r.got.id

\* the EDNS0 record: nothing but padding changes; one is added only for a client that used it, where padded
OptOk(r) ==
  IF r.a.opt # <<>> THEN r.got.opt = r.a.opt
  ELSE r.got.opt = <<>> \/ (r.edns /\ r.kind \in Padded /\ r.got.others = <<>>)

\* pad: number of padding bytes, -1 without the option. r.len: uncompressed length with an empty padding option
PadOk(r) ==
  LET bare == r.got.size - r.got.pad
  IN  IF r.kind \in Plain THEN r.got.pad = -1
      ELSE IF r.kind \in Padded /\ r.edns
      THEN \/ r.len > r.adv \/ r.got.tc   \* no room for any
           \/ r.got.size % BLOCK = 0
           \/ bare + BLOCK - (bare % BLOCK) > r.adv /\ r.got.size = r.adv
      ELSE IF r.kind \in Padded THEN r.got.pad = -1
      ELSE TRUE
\* padding never takes the reply beyond what the client asked for
PadLimit(r) == (r.kind \in Padded /\ r.edns /\ r.got.pad > 0) => r.got.size <= r.adv

ReplyOk(r) == r.got.k = "msg" /\ HeadOk(r) /\ SizeOk(r) /\ OptOk(r) /\ PadOk(r) /\ PadLimit(r)
=============================================================================
