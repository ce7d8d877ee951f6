------------------------------- MODULE Client -------------------------------
(* One exchange with an upstream server, on any transport: what has to be on  *)
(* the wire for a query, and what the caller gets for what the server did.    *)
EXTENDS Integers, Sequences, FiniteSets

PADDING == 12
KEEPALIVE == 11

Pipelined == {"udp", "tcp", "dot", "dtls"}
Sized     == {"udp", "tcp", "dtls"}
Plain     == {"udp", "tcp"}
Padded    == {"dot", "doh-post", "doh-get", "doh3-post", "doh3-get"}
Http      == {"doh-post", "doh-get", "doh3-post", "doh3-get", "odoh"}
Replaces  == Pipelined \cup {"doq"}     \* the transport puts its own ID on the wire

Drop(opts, codes) == SelectSeq(opts, LAMBDA o : o.code \notin codes)
Rest(m) == <<m.qr, m.op, m.aa, m.tc, m.rd, m.ra, m.z, m.ad, m.cd, m.rc, m.q, m.an, m.ns, m.ex>>

----------------------------------------------------------------------------
\* the query on the wire
EdnsOk(r) ==
  LET q == r.q.opt
      w == r.wire.m.opt
      set == r.tp \in Sized /\ r.cs # 0
      away == IF r.tp \in Plain THEN {PADDING} ELSE IF r.tp = "doq" THEN {KEEPALIVE} ELSE IF r.tp \in Padded \cup {"dtls"} THEN {PADDING} ELSE {}
      size == IF set THEN r.cs ELSE IF q # <<>> THEN q[1].size ELSE 0
  IN  IF q = <<>> /\ ~set THEN w = <<>>
      ELSE /\ Len(w) = 1 /\ w[1].size = size
           /\ w[1].do = IF q = <<>> THEN FALSE ELSE q[1].do
           /\ Drop(w[1].opts, away) = IF q = <<>> THEN <<>> ELSE Drop(q[1].opts, away)
           /\ r.tp \in Plain => \A k \in 1..Len(w[1].opts) : w[1].opts[k].code # PADDING
           /\ r.tp = "doq"   => \A k \in 1..Len(w[1].opts) : w[1].opts[k].code # KEEPALIVE
           /\ r.tp \in Padded => r.wire.len % 128 = 0
WireOk(r) ==
  r.wire.n > 0 =>
    /\ r.wire.n = 1                      \* asked once, well framed
    /\ ~r.wire.m.nil
    /\ Rest(r.wire.m) = Rest(r.q)
    /\ r.tp = "doq" => r.wire.m.id = 0
    /\ EdnsOk(r)

----------------------------------------------------------------------------
\* the reply
Repeats(r) == Len(r.rep.ql) >= 1 /\ r.rep.ql[1] = r.ql[1]
Reached(r) == r.what \notin {"refused", "untrusted"}
Http2xx(r) == r.rep.stat >= 200 /\ r.rep.stat <= 299
TooBig == 65535 + 512

Good(r) ==
  /\ Reached(r) /\ r.rep.k = "msg" /\ r.rep.dec /\ Repeats(r)
  /\ r.tp \in Http => Http2xx(r) /\ r.rep.size <= TooBig
  /\ r.tp = "odoh" => r.rep.ctype /\ r.rep.enc
  /\ r.tp = "doq" => ~r.rep.ka
  /\ r.tp \in Pipelined => r.rep.m.id = r.wire.m.id

\* cases the property leaves open: a truncated datagram that does not decode, IDs on transports that do not
\* need them, an oblivious message carrying trailing bytes, sizes between the DNS limit and the HTTP limit
Open(r) ==
  \/ r.may
  \/ r.tp \in Pipelined /\ ~r.rep.dec /\ r.rep.ka
  \/ r.tp = "doq" /\ r.rep.dec /\ r.rep.m.id # 0
  \/ r.tp = "odoh" /\ r.rep.size > 60000
  \/ r.tp \in Http /\ r.rep.size > 65535 /\ r.rep.size <= TooBig

AsSent(r) ==
  /\ r.out.k = "msg" /\ r.rep.dec
  /\ Rest(r.out.m) = Rest(r.rep.m) /\ r.out.m.opt = r.rep.m.opt
  /\ r.tp \in Replaces => r.out.m.id = r.q.id
  /\ r.tp \notin Replaces => r.out.m.id \in {r.rep.m.id, r.q.id}

OutcomeOk(r) ==
  IF Good(r) THEN AsSent(r) \/ (Open(r) /\ r.out.k = "err")
  ELSE r.out.k = "err" \/ (r.tp \in Pipelined /\ ~r.rep.dec /\ r.rep.ka /\ Reached(r) /\ r.rep.k = "msg" /\ r.out.k = "msg")

\* a certificate of an unknown authority: nothing is sent at all
TrustOk(r) == r.what = "untrusted" => r.wire.n = 0

\* a server that can be reached is asked (with time enough to connect)
SentOk(r) == r.what \in {"reply", "close", "short", "reset", "recover", "key: good"} /\ ~r.may => r.wire.n > 0

ExchangeOk(r) == r.same /\ SentOk(r) /\ WireOk(r) /\ TrustOk(r) /\ OutcomeOk(r)
=============================================================================
