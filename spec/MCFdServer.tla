----------------------------- MODULE MCFdServer -----------------------------
(* A server with one handler per connection, a bounded descriptor table and   *)
(* a table of sockets it has made and not yet closed, against FdServer: every *)
(* response the server can send is one the specification lets the client      *)
(* receive, responses never outnumber requests, and the descriptors in use    *)
(* by the server go back once everybody has been served.                      *)
EXTENDS FdServer, TLC
CONSTANTS Clients, Close \* Close: the server gives its copy back after sending
VARIABLES made, held, pipe
mvars == <<conn, out, made, held, pipe>>

Os(d, t, p) == [errno |-> IF p = 99 THEN 93 ELSE 0, d |-> d, t |-> Kind(t), p |-> p, nb |-> FALSE]
Req(f, d, t, p) == [form |-> f, d |-> d, t |-> t, p |-> p, os |-> Os(d, t, p)]
Reqs == {Req("ok", 2, 1, 0), Req("ok", 10, 2, 17), Req("ok", 2, 3, 0), Req("ok", 16, 524289, 0), Req("bad", 2, 1, 0), Req("long", 2, 1, 99)}

Eof == [magic |-> FALSE, errno |-> 0, fds |-> <<>>]
Init == FInit /\ made = 0 /\ held = {} /\ pipe = [c \in Clients |-> <<>>]
\* handler of c answers its oldest request
Answer(c, r) ==
    IF ~Allowed(r) THEN [magic |-> TRUE, errno |-> EPERM, fds |-> <<>>]
    ELSE IF r.os.errno # 0 THEN [magic |-> TRUE, errno |-> r.os.errno, fds |-> <<>>]
    ELSE [magic |-> TRUE, errno |-> 0, fds |-> <<[d |-> r.d, t |-> Kind(r.t), p |-> r.p, nb |-> FALSE, ino |-> made + 1]>>]
Handle(c) ==
    /\ IsConn(c) /\ Len(pipe[c]) < Len(conn[c].q)
    /\ \A k \in 1..Len(pipe[c]) : pipe[c][k].magic
    /\ LET r == conn[c].q[Len(pipe[c]) + 1] IN
        IF r.form = "bad" THEN pipe' = [pipe EXCEPT ![c] = Append(@, Eof)] /\ UNCHANGED <<made, held>>
        ELSE LET a == Answer(c, r) IN
             /\ pipe' = [pipe EXCEPT ![c] = Append(@, a)]
             /\ made' = made + Len(a.fds)
             /\ held' = IF Close \/ a.fds = <<>> THEN held ELSE held \cup {made + 1}
    /\ UNCHANGED <<conn, out>>
Take(c) ==
    /\ IsConn(c) /\ pipe[c] # <<>>
    /\ IF ~Head(pipe[c]).magic THEN Closed(c)
       ELSE Recv(c, FALSE, Head(pipe[c]))
    /\ pipe' = [pipe EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<made, held>>
Sent(c) == c \in DOMAIN conn
Next == \E c \in Clients :
    \/ Connect(c) /\ UNCHANGED <<made, held, pipe>>
    \/ /\ Sent(c) /\ Len(conn[c].q) < 2 /\ made < 3
       /\ \E r \in Reqs : Send(c, r) /\ UNCHANGED <<made, held, pipe>>
    \/ Fin(c) /\ conn' # conn /\ UNCHANGED <<made, held, pipe>>
    \/ Abort(c) /\ UNCHANGED <<made, held, pipe>>
    \/ Handle(c)
    \/ Take(c)
\* whatever waits in a pipe can be received: the specification never blocks the server
Accepts == \A c \in Clients : IsConn(c) /\ pipe[c] # <<>> => ENABLED Take(c)
NoLeak == held = {}
OnlyAllowed == \A c \in Clients : \A k \in 1..Len(pipe[c]) :
    pipe[c][k].magic /\ IsConn(c) /\ pipe[c][k].fds # <<>> => pipe[c][k].fds[1].d \in {2, 10} /\ pipe[c][k].fds[1].t \in {1, 2}
Spec == Init /\ [][Next]_mvars
=============================================================================
