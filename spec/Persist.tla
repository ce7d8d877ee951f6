------------------------------- MODULE Persist ------------------------------
(* The cache across restarts: what a save writes, what a start reads back.    *)
EXTENDS Cache
VARIABLES saved  \* entries in the file, most recently used first

PInit(c) == CInit(c) /\ saved = <<>>
Save == saved' = lru /\ UNCHANGED cvars
\* a start with some records of the file unreadable; those in `after` come after an unreadable one
Restart(cap, lost, after) ==
  /\ \E gone \in {lost, lost \cup after} :
       LET rest == SelectSeq(saved, LAMBDA e : e.key \notin gone)
       IN  /\ saved' = rest
           /\ lru' = IF cap > 0 /\ Len(rest) > cap THEN SubSeq(rest, 1, cap) ELSE rest
  /\ ccfg' = [ccfg EXCEPT !.cap = cap]
  /\ pfs' = <<>>
  /\ UNCHANGED now
=============================================================================
