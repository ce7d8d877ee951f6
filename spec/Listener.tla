------------------------------ MODULE Listener ------------------------------
(* One client connection to a listener. Requests arrive, may be handed to the *)
(* resolver, and are answered; replies of different requests may overtake     *)
(* each other. On transports with one stream or HTTP exchange per request     *)
(* ("each") closing concerns one request, otherwise the whole connection.     *)
EXTENDS Access
LOCAL INSTANCE Integers
LOCAL INSTANCE FiniteSets
VARIABLES cfg,   \* kind, src, nets, id, addr, sni, proto
          req,   \* req[i]: state of request i
          open   \* connection still open

Each  == cfg.kind \in {"doh", "odoh", "doq"}
Http  == cfg.kind \in {"doh", "odoh"}
May   == Permitted(cfg.nets, cfg.src)

\* classes: good; noq (decodes, no question); bad (does not decode); odd (decodes, but not a plain query:
\* may be served or refused); http (not a valid DNS-over-HTTP request)
Classes == {"good", "noq", "bad", "odd", "http"}

LInit(c) == cfg = c /\ req = <<>> /\ open = TRUE

Send(i, cls, path) ==
  /\ i = Len(req) + 1
  /\ req' = Append(req, [cls |-> cls, path |-> path, st |-> "sent", out |-> "", txt |-> "", gone |-> ~open])
  /\ UNCHANGED <<cfg, open>>

\* ci: what the resolver is told about the client
Told(i, ci) ==
  /\ ci.proto = cfg.proto /\ ci.lid = cfg.id /\ ci.laddr = cfg.addr
  /\ ci.src = cfg.src \/ (cfg.kind = "odoh" /\ ci.src = <<>>)
  /\ cfg.sni = "-" \/ ci.sni = cfg.sni
  /\ cfg.kind = "doh" => ci.path = req[i].path
Call(i, ci) ==
  /\ i \in 1..Len(req) /\ req[i].st = "sent" /\ req[i].cls \in {"good", "odd"} /\ May
  /\ Told(i, ci) /\ ci.qok
  /\ req' = [req EXCEPT ![i].st = "called"]
  /\ UNCHANGED <<cfg, open>>
Return(i, out, txt) ==
  /\ req[i].st = "called"
  /\ req' = [req EXCEPT ![i].st = "returned", ![i].out = out, ![i].txt = txt]
  /\ UNCHANGED <<cfg, open>>

\* a reply that reached the client
Reply(i, r) ==
  /\ i \in 1..Len(req) /\ ~req[i].gone
  /\ LET q == req[i]
     IN  IF r.k = "dns"
         THEN \/ q.st = "returned" /\ q.out = "ans" /\ r.id /\ (r.q \/ q.cls = "odd") /\ r.txt = q.txt
              \/ q.st = "returned" /\ q.out = "err" /\ r.id /\ (r.q \/ q.cls = "odd") /\ r.rc = 2 /\ r.nrr = 0
              \/ q.st = "sent" /\ ~May /\ q.cls \in {"good", "odd"} /\ r.id /\ (r.q \/ q.cls = "odd") /\ r.rc = 5 /\ r.nrr = 0
              \/ q.st = "sent" /\ q.cls \in {"noq", "bad", "odd"} /\ r.id /\ r.rc # 0 /\ r.nrr = 0 /\ ~Http
         ELSE \/ Http /\ q.st = "returned" /\ q.out = "nil" /\ r.http = 403
              \/ Http /\ q.st = "sent" /\ q.cls # "good" /\ r.http >= 400 /\ r.http < 500
              \/ cfg.kind = "odoh" /\ q.st = "sent" /\ ~May /\ r.http >= 400 /\ r.http < 500
  /\ req' = [req EXCEPT ![i].st = "done"]
  /\ UNCHANGED <<cfg, open>>

\* the server closes the connection (or the stream of request i) without more replies
Closed(i) ==
  /\ open
  /\ IF Each
     THEN /\ cfg.kind = "doq" /\ i \in 1..Len(req)
          /\ \/ req[i].st = "returned" /\ req[i].out = "nil"
             \/ req[i].st = "sent" /\ (req[i].cls \in {"noq", "bad", "odd"} \/ ~May)
          /\ req' = [req EXCEPT ![i].gone = TRUE]
          /\ UNCHANGED open
     ELSE /\ cfg.kind # "udp"
          /\ \E j \in 1..Len(req) : (req[j].st = "returned" /\ req[j].out = "nil") \/ req[j].cls \in {"bad", "noq", "odd"}
          /\ req' = [j \in 1..Len(req) |-> [req[j] EXCEPT !.gone = TRUE]]
          /\ open' = FALSE
  /\ UNCHANGED cfg

\* the client waited long enough for anything more to come
Settled(i) ==
  LET q == req[i]
  IN  \/ q.st = "done"
      \/ q.gone
      \/ cfg.kind = "udp" /\ q.st = "returned" /\ q.out = "nil"
      \/ q.st = "sent" /\ q.cls \in {"noq", "bad"} /\ ~Http
      \/ q.cls = "odd" /\ ~Http
      \/ cfg.kind = "doq" /\ ~May
Finish ==
  /\ \A i \in 1..Len(req) : Settled(i)
  /\ UNCHANGED <<cfg, req, open>>

----------------------------------------------------------------------------
NoCallUnlessServed == \A i \in 1..Len(req) : req[i].out # "" => May /\ req[i].cls \in {"good", "odd"}
DropIsSilent == \A i \in 1..Len(req) : (req[i].st = "done" /\ req[i].out = "nil") => Http
=============================================================================
