------------------------------ MODULE MCConfig ------------------------------
(* The loader: adds the elements to a graph, then the references in any      *)
(* order, then builds the elements from the leaves up. Run against every     *)
(* configuration of three groups with one or two members and a fall-back.    *)
EXTENDS Config
CONSTANTS CheckCycle,  \* a reference closing a cycle is refused
          AllRefs      \* every kind of reference is an edge
VARIABLES c, phase, edges, todo, done, left
mvars == <<c, phase, edges, todo, done, left>>
Names == {"a", "b", "c"}
Targets == Names \cup {"zz"}
Plain(id, res, retry) == [id |-> id, kind |-> "group", type |-> "truncate-retry", res |-> res, allow |-> "", block |-> "", limit |-> "",
                          retry |-> retry, routes |-> <<>>, bad |-> FALSE]
Lists == {<<x>> : x \in Targets} \cup {<<>>}
GroupsOf(id) == {[Plain(id, r, t) EXCEPT !.type = ty] : r \in Lists, t \in Targets \cup {""}, ty \in {"truncate-retry", "round-robin", "drop"}}
Third == {[Plain(id, r, "") EXCEPT !.type = "round-robin"] : id \in {"c", "a"}, r \in Lists} \cup {[Plain("c", <<>>, "") EXCEPT !.type = "drop"]}
MInit == /\ \E x \in GroupsOf("a"), y \in GroupsOf("b"), z \in Third, l \in {"a", "zz"} :
               c = [els |-> <<x, y, z>>, ls |-> <<[id |-> "l", proto |-> "udp", res |-> l, bad |-> FALSE, clients |-> <<>>]>>, twice |-> FALSE, broken |-> FALSE]
         /\ phase = "vertices" /\ edges = {} /\ todo = {} /\ done = {} /\ left = {}
EdgeRefs(e) == IF AllRefs THEN Refs(e) ELSE Ran(e.res)
Vertices == /\ phase = "vertices"
            /\ IF Unique(c) THEN phase' = "edges" /\ todo' = UNION {{<<e.id, t>> : t \in EdgeRefs(e)} : e \in Elems(c)} /\ left' = Ids(c)
               ELSE phase' = "refused" /\ UNCHANGED <<todo, left>>
            /\ UNCHANGED <<c, edges, done>>
RECURSIVE Reach(_, _)
Reach(from, es) == LET n == from \cup {x[2] : x \in {y \in es : y[1] \in from}} IN IF n = from THEN n ELSE Reach(n, es)
AddEdge == /\ phase = "edges" /\ todo # {}
           /\ \E x \in todo :
                IF x[2] \notin left \/ (CheckCycle /\ x[1] \in Reach({x[2]}, edges))
                THEN phase' = "refused" /\ UNCHANGED <<edges, todo>>
                ELSE edges' = edges \cup {x} /\ todo' = todo \ {x} /\ UNCHANGED phase
           /\ UNCHANGED <<c, done, left>>
Linked == phase = "edges" /\ todo = {} /\ phase' = "build" /\ UNCHANGED <<c, edges, todo, done, left>>
Leaves == {id \in left : \A x \in edges : x[1] = id => x[2] \notin left}
BuildOne == /\ phase = "build" /\ Leaves # {}
            /\ \E id \in Leaves :
                 IF MembersOk(El(c, id)) THEN done' = done \cup {id} /\ left' = left \ {id} /\ UNCHANGED phase
                 ELSE phase' = "refused" /\ UNCHANGED <<done, left>>
            /\ UNCHANGED <<c, edges, todo>>
Listeners == /\ phase = "build" /\ left = {}
             /\ phase' = IF \A l \in Ran(c.ls) : l.res \in done THEN "up" ELSE "refused"
             /\ UNCHANGED <<c, edges, todo, done, left>>
MNext == Vertices \/ AddEdge \/ Linked \/ BuildOne \/ Listeners
\* an element is built from built elements only
Wired == \A id \in done : Refs(El(c, id)) \subseteq done
Right == /\ (phase = "up" => Sound(c))
         /\ (phase = "refused" => ~Sound(c))
Ends == ~(phase = "build" /\ left # {} /\ Leaves = {})
=============================================================================
