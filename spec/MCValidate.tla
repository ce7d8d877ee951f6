----------------------------- MODULE MCValidate -----------------------------
(* Whoever answers may combine anything any zone ever signed with forgeries.  *)
EXTENDS Validate
VARIABLE msg

\* root, a signed zone <<1>> below it with a signed zone <<1, 8>>, an unsigned one <<2>>
World == [logonly |-> FALSE,
  zones |-> <<[name |-> <<>>, secure |-> TRUE, optout |-> FALSE], [name |-> <<1>>, secure |-> TRUE, optout |-> FALSE],
              [name |-> <<2>>, secure |-> FALSE, optout |-> FALSE], [name |-> <<1, 8>>, secure |-> TRUE, optout |-> FALSE]>>,
  sets |-> <<
    [z |-> 1, owner |-> <<>>,        type |-> "SOA",   gen |-> 0, toks |-> <<"r">>, target |-> <<>>],
    [z |-> 1, owner |-> <<1>>,       type |-> "NS",    gen |-> 0, toks |-> <<"n">>, target |-> <<>>],
    [z |-> 1, owner |-> <<1>>,       type |-> "DS",    gen |-> 0, toks |-> <<"d">>, target |-> <<>>],
    [z |-> 1, owner |-> <<2>>,       type |-> "NS",    gen |-> 0, toks |-> <<"n">>, target |-> <<>>],
    [z |-> 2, owner |-> <<1>>,       type |-> "SOA",   gen |-> 0, toks |-> <<"s">>, target |-> <<>>],
    [z |-> 2, owner |-> <<1>>,       type |-> "NS",    gen |-> 0, toks |-> <<"n">>, target |-> <<>>],
    [z |-> 2, owner |-> <<1, 3>>,    type |-> "A",     gen |-> 0, toks |-> <<"a">>, target |-> <<>>],
    [z |-> 2, owner |-> <<1, 4, 0>>, type |-> "A",     gen |-> 0, toks |-> <<"w">>, target |-> <<>>],
    [z |-> 2, owner |-> <<1, 4, 1>>, type |-> "A",     gen |-> 0, toks |-> <<"x">>, target |-> <<>>],
    [z |-> 2, owner |-> <<1, 6>>,    type |-> "CNAME", gen |-> 0, toks |-> <<"c">>, target |-> <<1, 8, 1>>],
    [z |-> 2, owner |-> <<1, 8>>,    type |-> "NS",    gen |-> 0, toks |-> <<"n">>, target |-> <<>>],
    [z |-> 2, owner |-> <<1, 8>>,    type |-> "DS",    gen |-> 0, toks |-> <<"e">>, target |-> <<>>],
    [z |-> 4, owner |-> <<1, 8>>,    type |-> "SOA",   gen |-> 0, toks |-> <<"t">>, target |-> <<>>],
    [z |-> 4, owner |-> <<1, 8>>,    type |-> "A",     gen |-> 0, toks |-> <<"b">>, target |-> <<>>],
    [z |-> 4, owner |-> <<1, 8, 1>>, type |-> "A",     gen |-> 0, toks |-> <<"y">>, target |-> <<>>]>>]

Owners(z) == {World.sets[s].owner : s \in {k \in 1..Len(World.sets) : World.sets[k].z = z}}
TypesAt(z, o) == {World.sets[s].type : s \in {k \in 1..Len(World.sets) : World.sets[k].z = z /\ World.sets[k].owner = o}}
NextOf(z, o) == LET A == {x \in Owners(z) : Less(o, x)} B == IF A = {} THEN Owners(z) ELSE A
                IN  CHOOSE x \in B : \A y \in B : ~Less(y, x)
Nsecs == UNION {{[z |-> z, owner |-> o, next |-> NextOf(z, o), types |-> TypesAt(z, o)] : o \in Owners(z)} :
                z \in {k \in 1..Len(World.zones) : World.zones[k].secure}}

Names == {<<>>, <<1>>, <<2>>, <<5>>, <<1, 3>>, <<1, 5>>, <<1, 4>>, <<1, 4, 1>>, <<1, 4, 2>>, <<1, 6>>,
          <<1, 8>>, <<1, 8, 1>>, <<1, 8, 2>>, <<2, 1>>}
\* delegations are not signed; a wildcard set may be shown under any name below it
Signed(k) == LET s == World.sets[k] IN World.zones[s.z].secure /\ ~(s.type = "NS" /\ "SOA" \notin TypesAt(s.z, s.owner))
Shown(k, n) == [owner |-> n, src |-> World.sets[k].owner, z |-> World.sets[k].z, type |-> World.sets[k].type,
                toks |-> World.sets[k].toks, target |-> World.sets[k].target]
Real == {Shown(k, World.sets[k].owner) : k \in {j \in 1..Len(World.sets) : Signed(j)}} \cup {Shown(8, n) : n \in {<<1, 4, 1>>, <<1, 4, 2>>, <<1, 3>>, <<1, 5>>}}
Fake == {[owner |-> n, src |-> n, z |-> 0, type |-> "A", toks |-> <<"forged">>, target |-> <<>>] : n \in {<<1, 3>>, <<2, 1>>, <<1, 8, 1>>}}
   \cup {[owner |-> n, src |-> n, z |-> 0, type |-> "CNAME", toks |-> <<"forged">>, target |-> <<2, 1>>] : n \in {<<1, 3>>}}
Upto2(S) == {{}} \cup {{x, y} : x \in S, y \in S}

Init == /\ DInit(World)
        /\ \E q \in [name : Names, type : {"A", "DS", "CNAME"}], rc \in {0, 3}, an \in Upto2(Real \cup Fake), ps \in Upto2(Nsecs) :
             msg = [q |-> q, rc |-> rc, an |-> an, ps |-> ps]
Next == FALSE /\ UNCHANGED <<cfg, gen, keys, now, msg>>

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
Sound == Accepts(msg.q, msg.an, msg.ps, msg.rc, Nsecs) => Faithful(msg.q, ToSeq(msg.an), msg.rc, 0)
=============================================================================
