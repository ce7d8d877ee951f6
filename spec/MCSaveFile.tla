----------------------------- MODULE MCSaveFile -----------------------------
(* Two saves of the same file at the same time, each writing two chunks to a  *)
(* file of its own, syncing and renaming it; any step may fail, the machine   *)
(* may stop after any.                                                        *)
EXTENDS SaveFile, TLC
CONSTANTS WithSync, OwnNames, WithMode
VARIABLES pc, res
mvars == <<fvars, pc, res>>
S == {1, 2}
Tmp(s) == IF OwnNames THEN "tmp" \o ToString(s) ELSE "tmp"
Init == /\ \E had \in BOOLEAN :
             FInit([target |-> "t", old |-> IF had THEN <<7, 8>> ELSE <<>>, had |-> had, mode |-> 416,
                    good |-> << <<7, 8>>, <<11, 12>>, <<21, 22>> >>, new |-> << <<11, 12>>, <<21, 22>> >>], <<>>)
        /\ pc = [s \in S |-> "create"] /\ res = [s \in S |-> "none"]
Go(s, p) == pc' = [pc EXCEPT ![s] = p] /\ UNCHANGED res
Ends(s, r) == pc' = [pc EXCEPT ![s] = "done"] /\ res' = [res EXCEPT ![s] = r]
Idle == UNCHANGED fvars
Step(s) ==
  \/ pc[s] = "create" /\ Open(s, Tmp(s), TRUE, FALSE, TRUE, 384) /\ Go(s, IF WithMode /\ "t" \in DOMAIN names THEN "chmod" ELSE "w1")
  \/ pc[s] = "chmod"  /\ Chmod(fds[s], inodes[names["t"]].mode) /\ Go(s, "w1")
  \/ pc[s] = "w1"     /\ Write(s, 10 * s + 1) /\ Go(s, "w2")
  \/ pc[s] = "w2"     /\ Write(s, 10 * s + 2) /\ Go(s, IF WithSync THEN "sync" ELSE "rename")
  \/ pc[s] = "sync"   /\ Sync(s) /\ Go(s, "rename")
  \/ pc[s] = "rename" /\ Rename(Tmp(s), "t") /\ Ends(s, "ok")
  \* an error anywhere
  \/ pc[s] \in {"chmod", "w1", "w2", "sync", "rename"} /\ Idle /\ Go(s, "undo")
  \/ pc[s] = "undo" /\ Unlink(Tmp(s)) /\ Ends(s, "failed")
Next == \E s \in S : Step(s)
Safe == TargetOk
Clean == (\A s \in S : pc[s] = "done") =>
           /\ DOMAIN names \subseteq {"t"}
           /\ (\A s \in S : res[s] = "failed") => IF fcfg.had THEN Target.data = fcfg.old ELSE DOMAIN names = {}
           /\ (\E s \in S : res[s] = "ok") => Target.data \in Members(fcfg.new)
=============================================================================
