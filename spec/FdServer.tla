------------------------------ MODULE FdServer ------------------------------
(* The socket hand-out server. A client holds a connection on which it sends  *)
(* requests (domain, type, protocol) and receives, for each well-formed one   *)
(* and in the order sent, one response: an error number, or the socket the    *)
(* operating system makes for exactly that request. `req.os` is what the      *)
(* operating system gave the observer for the same request. Numbers are 32-bit*)
(* signed readings of the fields.                                             *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES conn, out
fvars == <<conn, out>>

AF_INET == 2
AF_INET6 == 10
SOCK_STREAM == 1
SOCK_DGRAM == 2
NONBLOCK == 2048
CLOEXEC == 524288
EPERM == 1
TCP == 6
UDP == 17

LOCAL Bit(t, b) == (t \div b) % 2 = 1
\* the type without its two flag bits
Kind(t) == IF t < 0 THEN t
           ELSE t - (IF Bit(t, NONBLOCK) THEN NONBLOCK ELSE 0) - (IF Bit(t, CLOEXEC) THEN CLOEXEC ELSE 0)
Allowed(r) ==
    /\ r.d \in {AF_INET, AF_INET6}
    /\ \/ Kind(r.t) = SOCK_STREAM /\ r.p \in {0, TCP}
       \/ Kind(r.t) = SOCK_DGRAM /\ r.p \in {0, UDP}

\* what the response to a well-formed request has to say
Granted(unrestricted, r) == unrestricted \/ Allowed(r)
RespOk(unrestricted, r, resp) ==
    /\ resp.magic
    /\ IF ~Granted(unrestricted, r) THEN resp.errno = EPERM /\ resp.fds = <<>>
       ELSE IF r.os.errno # 0 THEN resp.errno = r.os.errno /\ resp.fds = <<>>
       ELSE /\ resp.errno = 0 /\ Len(resp.fds) = 1
            /\ resp.fds[1].d = r.os.d /\ resp.fds[1].t = r.os.t /\ resp.fds[1].p = r.os.p
            /\ resp.fds[1].nb = r.os.nb

(* conn[c] = [q |-> what was sent and not answered yet, fin |-> client has    *)
(* said it is done, open |-> the client still looks]; out = the identities of *)
(* every socket handed out so far, which nobody else may receive again.       *)
FInit == conn = <<>> /\ out = {}
IsConn(c) == c \in DOMAIN conn /\ conn[c].open
Connect(c) == /\ c \notin DOMAIN conn
              /\ conn' = [x \in DOMAIN conn \cup {c} |-> IF x = c THEN [q |-> <<>>, fin |-> FALSE, open |-> TRUE] ELSE conn[x]]
              /\ UNCHANGED out
Send(c, r) == /\ IsConn(c) /\ ~conn[c].fin
              /\ conn' = [conn EXCEPT ![c].q = Append(@, r)]
              /\ UNCHANGED out
Fin(c) == IsConn(c) /\ conn' = [conn EXCEPT ![c].fin = TRUE] /\ UNCHANGED out
Abort(c) == IsConn(c) /\ conn' = [conn EXCEPT ![c].open = FALSE] /\ UNCHANGED out
\* r.form: "ok" 16 bytes with the right magic; "bad" malformed; "long" more than
\* 16 bytes, which may be read as its first 16 or refused
Recv(c, unrestricted, resp) ==
    /\ IsConn(c) /\ conn[c].q # <<>>
    /\ LET r == Head(conn[c].q) IN
        /\ r.form \in {"ok", "long"}
        /\ RespOk(unrestricted, r, resp)
        /\ \A k \in 1..Len(resp.fds) : resp.fds[k].ino \notin out
        /\ out' = out \cup {resp.fds[k].ino : k \in 1..Len(resp.fds)}
    /\ conn' = [conn EXCEPT ![c].q = Tail(@)]
\* the server ends the conversation only at its end or at a malformed request
Closed(c) == /\ IsConn(c)
             /\ \/ conn[c].q = <<>> /\ conn[c].fin
                \/ conn[c].q # <<>> /\ Head(conn[c].q).form \in {"bad", "long"}
             /\ conn' = [conn EXCEPT ![c].open = FALSE] /\ UNCHANGED out

(* Life of the socket file. What stood at the path before: "none", "stale" (a *)
(* socket nobody listens on), "live" (somebody does), "other" (anything else).*)
LifeOk(r) ==
    IF r.kind \in {"none", "stale"}
    THEN /\ r.started /\ r.served
         /\ ~r.abstract => r.issock /\ (r.mode # 0 => r.gotmode = r.mode)
         /\ r.stopped /\ r.gone
    ELSE ~r.started /\ r.same
\* a server that outlives more clients and requests than it has descriptors for
EnduresOk(r) == r.alive /\ r.served
=============================================================================
