------------------------------- MODULE Pipeline -------------------------------
(* Many callers share one upstream connection at a time. Events: a caller       *)
(* begins, the client dials, the server receives a query on the wire, the       *)
(* server sends something or closes, the client closes, a caller returns.       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg,    \* [T |-> query timeout]
          now,
          conn,   \* k -> [st: "dialing" | "open" | "closed", last: when something was last received, prev: the same before now, stalled]
          call,   \* c -> [t0, q, st: "wait" | "wired" | "done", k, id, res, since]
          budget  \* failures that may hit a query before it is on the wire (failed dial, write on a dying connection)

vars == <<cfg, now, conn, call, budget>>
Stall == 60000   \* a connection on which nothing moves for this long has to be given up

PInit(c) == cfg = c /\ now = 0 /\ conn = <<>> /\ call = <<>> /\ budget = 0

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
None == [k |-> "none", tok |-> ""]
\* the ID was taken up again while a message under the same ID was on its way: either may have been first.
\* Happens only where the driver restricts the IDs to a small range (cfg.small).
Early == [k |-> "early", tok |-> ""]
\* messages that reached k since c began, under an ID that c may have been given before it was on the wire
Strays(c, k, id) == {x \in conn[k].sent : x.t >= call[c].t0 /\ (id = -1 \/ x.id = id)}
OpenCalls == {c \in DOMAIN call : call[c].st # "done"}

Begin(c, q) ==
  /\ c \notin DOMAIN call
  /\ call' = Put(call, c, [t0 |-> now, q |-> q, st |-> "wait", k |-> 0, id |-> -1, res |-> None])
  /\ UNCHANGED <<cfg, now, conn, budget>>

\* a connection is opened only on demand
Dial(k) ==
  /\ k \notin DOMAIN conn
  /\ conn' = Put(conn, k, [st |-> "dialing", last |-> now, prev |-> now, stalled |-> FALSE, sent |-> {}])
  /\ UNCHANGED <<cfg, now, call, budget>>
DialEnd(k, ok) ==
  /\ k \in DOMAIN conn /\ conn[k].st = "dialing"
  /\ conn' = [conn EXCEPT ![k].st = IF ok THEN "open" ELSE "closed", ![k].last = now, ![k].prev = now]
  /\ budget' = IF ok THEN budget ELSE budget + 1
  /\ UNCHANGED <<cfg, now, call>>

\* the query of c reaches the server, unchanged but for its ID, under an ID no other query in flight uses.
\* It may belong to a caller that has just timed out, and take the ID of one that does so now.
Wire(k, c, id, same) ==
  /\ same /\ c \in DOMAIN call /\ k \in DOMAIN conn
  /\ call[c].k = 0
  /\ \A d \in OpenCalls \ {c} : ~(call[d].k = k /\ call[d].id = id /\ call[d].res.k = "none" /\ now < call[d].t0 + cfg.T)
  /\ call' = [call EXCEPT ![c].k = k, ![c].id = id, ![c].st = IF @ = "wait" THEN "wired" ELSE @,
                          ![c].res = IF Strays(c, k, id) # {} THEN Early ELSE @]
  /\ UNCHANGED <<cfg, now, conn, budget>>

\* what a message sent by the server under ID id means for the query in flight with that ID:
\* its answer, or a failure if it does not repeat the question or does not decode.
\* Undecodable but truncated messages may be treated either way.
Meaning(c, q, dec, tok) ==
  IF q # call[c].q THEN [k |-> "bad", tok |-> ""]
  ELSE IF dec = "ok" THEN [k |-> "good", tok |-> tok]
  ELSE IF dec = "parttc" THEN [k |-> "any", tok |-> ""]
  ELSE [k |-> "bad", tok |-> ""]
Send(k, id, q, dec, tok) ==
  /\ k \in DOMAIN conn
  /\ conn' = [conn EXCEPT ![k].last = now, ![k].prev = IF conn[k].last < now THEN conn[k].last ELSE @, ![k].sent = IF cfg.small THEN @ \cup {[id |-> id, t |-> now, tok |-> tok]} ELSE @,
                          ![k].st = IF dec = "junk" /\ @ = "open" THEN "dying" ELSE @]
  /\ call' = IF dec = "junk" THEN call
             ELSE [c \in DOMAIN call |->
                     IF call[c].st = "wired" /\ call[c].k = k /\ call[c].id = id /\ call[c].res.k \in {"none", "early"}
                     THEN [call[c] EXCEPT !.res = IF @.k = "early" THEN [k |-> "any", tok |-> ""] ELSE Meaning(c, q, dec, tok)] ELSE call[c]]
  /\ UNCHANGED <<cfg, now, budget>>

SetStall(k, on) == k \in DOMAIN conn /\ conn' = [conn EXCEPT ![k].stalled = on] /\ UNCHANGED <<cfg, now, call, budget>>

\* queries a lost connection may take along that have not been seen on it: the
\* one just being written and the one read but not yet noted by the server
Unseen == 2
ServerClose(k) ==
  /\ k \in DOMAIN conn
  /\ conn' = [conn EXCEPT ![k].st = "closed"] /\ budget' = budget + Unseen
  /\ UNCHANGED <<cfg, now, call>>
\* the client may give up a connection the server closed or spoiled, or that is
\* idle, also when something comes at the very instant it is given up
ClientClose(k) ==
  /\ k \in DOMAIN conn
  /\ conn[k].st \in {"closed", "dying"} \/ (conn[k].st = "open" /\ now - (IF conn[k].last = now THEN conn[k].prev ELSE conn[k].last) >= cfg.T)
  /\ conn' = [conn EXCEPT ![k].st = "closed"]
  /\ budget' = IF conn[k].st = "closed" THEN budget ELSE budget + Unseen
  /\ UNCHANGED <<cfg, now, call>>

\* a caller gets its answer under its own ID, or an error for a reason of its own
Return(c, o) ==
  /\ c \in OpenCalls
  /\ \/ /\ o.k = "ans" /\ o.idok /\ call[c].res.k = "good" /\ call[c].res.tok = o.tok /\ UNCHANGED budget
     \/ /\ o.idok /\ call[c].res.k \in {"any", "early"} /\ UNCHANGED budget
     \/ /\ call[c].st = "wait" /\ UNCHANGED budget
        /\ \E k \in DOMAIN conn : \E x \in Strays(c, k, -1) : o.k = "err" \/ (o.idok /\ o.tok = x.tok)
     \/ /\ o.k = "err"
        /\ \/ now = call[c].t0 + cfg.T /\ UNCHANGED budget
           \/ call[c].res.k = "bad" /\ UNCHANGED budget
           \/ call[c].st = "wired" /\ conn[call[c].k].st # "open" /\ UNCHANGED budget
           \/ call[c].st = "wait" /\ budget > 0 /\ budget' = budget - 1
  /\ call' = [call EXCEPT ![c].st = "done"]
  /\ UNCHANGED <<cfg, now, conn>>

\* nobody is kept beyond the timeout
Pass(t) ==
  /\ t > now /\ now' = t
  /\ \A c \in OpenCalls : t <= call[c].t0 + cfg.T
  /\ UNCHANGED <<cfg, conn, call, budget>>

\* when nothing can move any more, nobody waits without a reason
Settled ==
  \A c \in OpenCalls :
    /\ call[c].res.k \in {"none", "early"}
    /\ call[c].st = "wired" => conn[call[c].k].st = "open"
    /\ call[c].st = "wait" => \E k \in DOMAIN conn : \/ conn[k].st = "dialing"
                                                     \/ conn[k].st = "open" /\ conn[k].stalled /\ now - conn[k].last < Stall
Quiet == Settled /\ budget' = 0 /\ UNCHANGED <<cfg, now, conn, call>>
==============================================================================
