------------------------------- MODULE Refresh -------------------------------
(* Rule lists and their sources. A list version is a positive number, 0 is the *)
(* empty list, -1 stands for anything that is not one complete version.        *)
(*                                                                             *)
(* Loader: reads one source, optionally keeps a copy on disk.                  *)
(* Element: judges queries by the active version of each of its lists and      *)
(* reloads them periodically.                                                  *)
EXTENDS Integers, Sequences
VARIABLES cfg,    \* [lists, allowfail, cachedir, period]
          src,    \* per list: [ok, v]
          last,   \* last version the loader delivered
          disk,   \* version stored in the cache directory, 0: none
          first,  \* the loader has not loaded yet
          act,    \* per list: active version
          busy,   \* [on, v, ok]: a reload in progress
          due     \* [lo, hi]: when the next reload has to begin

vars == <<cfg, src, last, disk, first, act, busy, due>>

NoReload == [on |-> FALSE, v |-> 0, ok |-> FALSE]

\* ---- loader ---------------------------------------------------------------------
LInit(c) == /\ cfg = c /\ src = << [ok |-> TRUE, v |-> 1] >> /\ last = 0 /\ disk = 0 /\ first = TRUE
            /\ act = <<0>> /\ busy = NoReload /\ due = [lo |-> 0, hi |-> 0]

Source(k, ok, v) == src' = [src EXCEPT ![k] = [ok |-> ok, v |-> v]] /\ UNCHANGED <<cfg, last, disk, first, act, busy, due>>

\* what a load delivers: [err, v]
LoadResult ==
  IF first /\ cfg.cachedir /\ disk # 0 THEN [err |-> FALSE, v |-> disk]
  ELSE IF src[1].ok THEN [err |-> FALSE, v |-> src[1].v]
  ELSE IF cfg.allowfail THEN [err |-> FALSE, v |-> last]
  ELSE [err |-> TRUE, v |-> 0]
Load(res) ==
  /\ res = LoadResult
  /\ first' = FALSE
  /\ last' = IF res.err THEN last ELSE res.v
  /\ disk' = IF cfg.cachedir /\ ~(first /\ disk # 0) /\ src[1].ok THEN src[1].v ELSE disk
  /\ UNCHANGED <<cfg, src, act, busy, due>>
Restart == first' = TRUE /\ last' = 0 /\ UNCHANGED <<cfg, src, disk, act, busy, due>>
OnDisk(v) == v = disk /\ UNCHANGED vars

\* ---- element, instantaneous reloads of real lists -------------------------------------
EInit(c, versions) ==
  /\ cfg = c /\ src = [k \in 1..Len(versions) |-> [ok |-> TRUE, v |-> versions[k]]]
  /\ last = 0 /\ disk = 0 /\ first = FALSE /\ act = versions /\ busy = NoReload /\ due = [lo |-> c.period, hi |-> c.period]
AllOk == \A k \in 1..Len(src) : src[k].ok
RefreshAll ==
  /\ act' \in [1..Len(src) -> {src[k].v : k \in 1..Len(src)} \cup {act[k] : k \in 1..Len(act)}]
  /\ \A k \in 1..Len(src) :
       IF AllOk THEN act'[k] = src[k].v
       ELSE IF src[k].ok THEN act'[k] \in {act[k], src[k].v}
       ELSE act'[k] = act[k]
  /\ UNCHANGED <<cfg, src, last, disk, first, busy, due>>
\* a probe finds exactly the rules of the active versions
Probe(hit) == hit = act /\ UNCHANGED vars

\* ---- element, slow reloads ------------------------------------------------------------
ReloadBegin(t, ok, v) ==
  /\ ~busy.on /\ t >= due.lo /\ t <= due.hi
  /\ busy' = [on |-> TRUE, v |-> v, ok |-> ok] /\ due' = [due EXCEPT !.lo = t]
  /\ UNCHANGED <<cfg, src, last, disk, first, act>>
ReloadEnd(t) ==
  /\ busy.on /\ busy' = NoReload
  /\ act' = IF busy.ok THEN <<busy.v>> ELSE act
  /\ due' = [lo |-> due.lo + cfg.period, hi |-> t + cfg.period]
  /\ UNCHANGED <<cfg, src, last, disk, first>>
\* time has come to t: no reload is overdue
At(t) == (busy.on \/ t <= due.hi) /\ UNCHANGED vars
==============================================================================
