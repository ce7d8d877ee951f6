------------------------------ MODULE MCPipeline ------------------------------
(* The connection manager as a machine: a table of queries in flight, a reader  *)
(* and a writer that end together, and a server that may do anything. Checked:  *)
(* every behaviour of the machine is allowed by Pipeline (delivery only to the  *)
(* query that was asked, distinct IDs, nobody stuck).                            *)
EXTENDS Pipeline, TLC
CONSTANTS C, K, IDs, MaxNow
VARIABLES table,   \* id -> c
          tries,   \* server sends left
          bad      \* a step of the machine Pipeline does not allow
mv == <<cfg, now, conn, call, budget, table, tries, bad>>
Cur == {k \in DOMAIN conn : conn[k].st \in {"open", "dying", "dialing"}}
Init == PInit([T |-> 2, small |-> FALSE]) /\ table = <<>> /\ tries = 3 /\ bad = FALSE
Undo(c) == [x \in {y \in DOMAIN table : table[y] # c} |-> table[x]]
MBegin == \E c \in C : Begin(c, c % 2) /\ UNCHANGED <<table, tries, bad>>
MDial == /\ Cur = {} /\ \E c \in OpenCalls : call[c].st = "wait"
         /\ \E k \in K : k = Cardinality(DOMAIN conn) + 1 /\ Dial(k) /\ UNCHANGED <<table, tries, bad>>
MDialed == \E k \in Cur, ok \in BOOLEAN :
             /\ DialEnd(k, TRUE) \/ DialEnd(k, FALSE)
             /\ UNCHANGED <<table, tries, bad>>
MWrite == \E k \in Cur, c \in OpenCalls, id \in IDs :
            /\ conn[k].st = "open" /\ call[c].st = "wait" /\ id \notin DOMAIN table
            /\ IF ENABLED Wire(k, c, id, TRUE) THEN Wire(k, c, id, TRUE) /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED vars
            /\ table' = Put(table, id, c) /\ UNCHANGED tries
\* send and read in one step: the reader looks the ID up in its table
MSend == \E k \in Cur, id \in IDs, q \in {0, 1}, dec \in {"ok", "part"} :
           /\ tries > 0 /\ tries' = tries - 1 /\ conn[k].st = "open"
           /\ Send(k, id, q, dec, <<k, id, q, tries>>)
           /\ table' = (IF id \in DOMAIN table THEN [x \in DOMAIN table \ {id} |-> table[x]] ELSE table)
           /\ bad' = (bad \/ (id \in DOMAIN table /\ call[table[id]].st = "wired" /\ ~(call[table[id]].id = id /\ call[table[id]].k = k)))
MClose == \E k \in Cur : conn[k].st = "open" /\ tries > 0 /\ tries' = tries - 1 /\ ServerClose(k) /\ table' = <<>> /\ UNCHANGED bad
MReturn == \E c \in OpenCalls :
             /\ \/ call[c].res.k = "good" /\ Return(c, [k |-> "ans", tok |-> call[c].res.tok, idok |-> TRUE])
                \/ Return(c, [k |-> "err", tok |-> "", idok |-> TRUE])
             /\ table' = Undo(c) /\ UNCHANGED <<tries, bad>>
MPass == now < MaxNow /\ Pass(now + 1) /\ UNCHANGED <<table, tries, bad>>
Next == MBegin \/ MDial \/ MDialed \/ MWrite \/ MSend \/ MClose \/ MReturn \/ MPass
\* what the machine can do next when it is not idle; if nothing, everything is settled
Progress == \/ ENABLED MDial \/ ENABLED MDialed \/ ENABLED MWrite
            \/ \E c \in OpenCalls : call[c].res.k # "none" \/ (call[c].st = "wired" /\ conn[call[c].k].st # "open")
                                  \/ now = call[c].t0 + cfg.T
Live == ~Progress => Settled \/ Cardinality(DOMAIN conn) = Cardinality(K)
Allowed == ~bad
DistinctIDs == \A c, d \in OpenCalls : c # d /\ call[c].res.k = "none" /\ call[d].res.k = "none" /\ call[c].k # 0 /\ call[c].k = call[d].k => call[c].id # call[d].id
OwnAnswer == \A c \in DOMAIN call : call[c].res.k = "good" => call[c].res.tok[1] = call[c].k /\ call[c].res.tok[2] = call[c].id /\ call[c].res.tok[3] = call[c].q
InTime == \A c \in OpenCalls : now <= call[c].t0 + cfg.T
==============================================================================
