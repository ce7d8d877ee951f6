------------------------------- MODULE Access -------------------------------
(* Who may use a listener, and under which address a client is known.         *)
EXTENDS Addr
LOCAL INSTANCE Integers

Permitted(nets, a) == Len(nets) = 0 \/ \E k \in 1..Len(nets) : InNet(a, nets[k].ip, nets[k].p)

Loopback(a) == IF Len(a) = 4 THEN a[1] = 127 ELSE a = [k \in 1..16 |-> IF k = 16 THEN 1 ELSE 0]

\* xff: all entries of all forwarded-for header lines in order, each [ok, ip]; proxy: <<>> or <<net>>
Attributed(proxy, src, xff) ==
  IF Len(proxy) = 0 \/ Len(xff) = 0 \/ ~InNet(src, proxy[1].ip, proxy[1].p) THEN src
  ELSE LET l == xff[Len(xff)]
       IN  IF l.ok /\ ~Loopback(l.ip) THEN l.ip ELSE src

\* cert: "none", "good" (from the configured authority), "bad" (anything else)
Trusted(mutual, cert) == ~mutual \/ cert = "good"

\* r: one request to a listener with restrictions, and what became of it
Who(r) == IF r.kind = "doh" THEN Attributed(r.proxy, r.src, r.xff) ELSE r.src
AccessOk(r) ==
  LET ok == Trusted(r.mutual, r.cert) /\ Permitted(r.nets, Who(r))
  IN  /\ r.calls = (IF ok THEN 1 ELSE 0)
      /\ ok => /\ r.got = "answer"
               /\ (r.kind # "odoh" \/ r.seen # <<>>) => r.seen = Who(r)
      /\ ~ok => r.got \in {"refused", "none"}
=============================================================================
