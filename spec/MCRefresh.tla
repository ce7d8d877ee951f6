------------------------------ MODULE MCRefresh ------------------------------
(* Loader and two-list element over three versions, every source history.       *)
EXTENDS Refresh, TLC
VARIABLES mode, loaded, everOk, steps
mv == <<cfg, src, last, disk, first, act, busy, due, mode, loaded, everOk, steps>>
Cfgs == {[lists |-> n, allowfail |-> f, cachedir |-> d, period |-> 1] : n \in {1, 2}, f \in BOOLEAN, d \in BOOLEAN}
V == 1..3
Init == \/ \E c \in Cfgs : c.lists = 1 /\ mode = "loader" /\ LInit(c) /\ loaded = {} /\ everOk = {1} /\ steps = 0
        \/ \E c \in Cfgs : c.lists = 2 /\ mode = "element" /\ EInit(c, <<1, 1>>) /\ loaded = {} /\ everOk = {1} /\ steps = 0
Next == /\ steps < 6 /\ steps' = steps + 1 /\ UNCHANGED mode
        /\ \/ \E k \in 1..Len(src), ok \in BOOLEAN, v \in V : Source(k, ok, v) /\ everOk' = (IF ok THEN everOk \cup {v} ELSE everOk) /\ UNCHANGED loaded
           \/ mode = "loader" /\ Load(LoadResult) /\ loaded' = (IF LoadResult.err THEN loaded ELSE loaded \cup {LoadResult.v}) /\ UNCHANGED everOk
           \/ mode = "loader" /\ Restart /\ UNCHANGED <<loaded, everOk>>
           \/ mode = "element" /\ RefreshAll /\ UNCHANGED <<loaded, everOk>>
\* only complete versions that the source offered are ever delivered, stored or active
OnlyOffered == loaded \subseteq everOk \cup {0} /\ disk \in everOk \cup {0} /\ \A k \in 1..Len(act) : act[k] \in everOk \cup {0}
EmptyOnlyIfAllowed == 0 \in loaded => cfg.allowfail
NeverEmptied == mode = "element" => \A k \in 1..Len(act) : act[k] # 0
==============================================================================
