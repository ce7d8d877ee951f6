------------------------------- MODULE FailOver -------------------------------
(* Fail-rotate and fail-back groups. A call repeatedly picks the preferred       *)
(* member (critical section), asks it, and on failure reports it (critical       *)
(* section that advances the preference if it still points to that member).      *)
(* Fail-back: `reset` time units after the last fail-over the preference         *)
(* returns to the first member. reset = 0: every call walks the list by itself.  *)
EXTENDS Success, FiniteSets, TLC
VARIABLES cfg,      \* [kind, n, reset, sf, ee]
          now, active,
          deadline, \* when the preference is due to return, 0 if not pending
          fired,    \* that moment is now and the return has not happened yet
          call      \* [c -> [pc, cur, att, out]]
fvars == <<cfg, now, active, deadline, fired, call>>

Timed == cfg.kind = "back" /\ cfg.reset > 0
PerCall == cfg.kind = "back" /\ cfg.reset = 0

FInit(c) == cfg = c /\ now = 0 /\ active = 0 /\ deadline = 0 /\ fired = FALSE /\ call = <<>>

Begin(c) == /\ c \notin DOMAIN call
            /\ call' = call @@ (c :> [pc |-> "next", cur |-> 0, att |-> 0, out |-> "none"])
            /\ UNCHANGED <<cfg, now, active, deadline, fired>>

Pick(c) == /\ call[c].pc = "next"
           /\ call' = [call EXCEPT ![c].pc = "picked", ![c].att = @ + 1,
                                   ![c].cur = IF PerCall THEN call[c].att ELSE active]
           /\ UNCHANGED <<cfg, now, active, deadline, fired>>

Ask(c, m) == /\ call[c].pc = "picked" /\ call[c].cur = m
             /\ call' = [call EXCEPT ![c].pc = "asked"]
             /\ UNCHANGED <<cfg, now, active, deadline, fired>>

Answer(c, o) == /\ call[c].pc = "asked"
                /\ call' = [call EXCEPT ![c].out = o, ![c].pc = IF Usable(o, cfg.sf, cfg.ee) THEN "ret" ELSE "failed"]
                /\ UNCHANGED <<cfg, now, active, deadline, fired>>

Failed(c) ==
  /\ call[c].pc = "failed"
  /\ call' = [call EXCEPT ![c].pc = IF call[c].att = cfg.n THEN "ret" ELSE "next"]
  /\ IF PerCall \/ active # call[c].cur
     THEN UNCHANGED <<active, deadline, fired>>
     ELSE /\ active' = (active + 1) % cfg.n
          /\ IF Timed THEN deadline' = now + cfg.reset /\ fired' \in {fired, FALSE}
                      ELSE UNCHANGED <<deadline, fired>>
  /\ UNCHANGED <<cfg, now>>

Reset == /\ fired /\ fired' = FALSE /\ active' = 0
         /\ UNCHANGED <<cfg, now, deadline, call>>

Return(c, o) == /\ call[c].pc = "ret" /\ o = call[c].out
                /\ call' = [call EXCEPT ![c].pc = "gone"]
                /\ UNCHANGED <<cfg, now, active, deadline, fired>>

\* nothing left to do at this instant without the members
Quiet == ~fired /\ \A c \in DOMAIN call : call[c].pc \in {"asked", "gone"}

\* time moves on, but never past a due return
Pass(t) == /\ t > now /\ Quiet
           /\ IF deadline # 0 /\ deadline <= t
              THEN now' = deadline /\ deadline' = 0 /\ fired' = TRUE
              ELSE now' = t /\ UNCHANGED <<deadline, fired>>
           /\ UNCHANGED <<cfg, active, call>>
-------------------------------------------------------------------------------
CONSTANTS Calls, MaxTime, Cfgs
VARIABLES asked,    \* [c -> members asked so far]
          solo      \* [c -> nothing else was going on during the call so far]
mvars == <<cfg, now, active, deadline, fired, call, asked, solo>>

Outs(q) == {[k |-> "err", rc |-> 0, qt |-> 1, ans |-> <<>>, ede |-> <<>>],
            [k |-> "msg", rc |-> 0, qt |-> 1, ans |-> <<1>>, ede |-> <<>>],
            [k |-> "msg", rc |-> 2, qt |-> 1, ans |-> <<>>, ede |-> <<>>]}

MInit == \E c \in Cfgs : FInit(c) /\ asked = <<>> /\ solo = <<>>
OthersOpen(c) == \E d \in DOMAIN call : d # c /\ call[d].pc # "gone"
MNext ==
  \/ \E c \in Calls : Begin(c) /\ asked' = asked @@ (c :> <<>>)
                      /\ solo' = [d \in DOMAIN solo |-> solo[d] /\ call[d].pc = "gone"] @@ (c :> ~OthersOpen(c))
  \/ \E c \in DOMAIN call :
       \/ (Pick(c) \/ Failed(c) \/ (\E o \in Outs(1) : Answer(c, o) \/ Return(c, o))) /\ UNCHANGED <<asked, solo>>
       \/ \E m \in 0..(cfg.n - 1) : Ask(c, m) /\ asked' = [asked EXCEPT ![c] = Append(@, m)] /\ UNCHANGED solo
  \/ Reset /\ UNCHANGED asked /\ solo' = [d \in DOMAIN solo |-> solo[d] /\ call[d].pc = "gone"]
  \/ now < MaxTime /\ Pass(now + 1) /\ UNCHANGED <<asked, solo>>
MSpec == MInit /\ [][MNext]_mvars

BoundedAttempts == \A c \in DOMAIN asked : Len(asked[c]) <= cfg.n
\* alone, a call walks the members in order from the preferred one, each once
SoloInOrder == \A c \in DOMAIN asked : solo[c] =>
   \A j \in 1..Len(asked[c]) : j > 1 => asked[c][j] = (asked[c][j-1] + 1) % cfg.n
SoloExhausts == \A c \in DOMAIN call : solo[c] /\ call[c].pc = "ret" /\ ~Usable(call[c].out, cfg.sf, cfg.ee)
   => Cardinality(Range(asked[c])) = cfg.n
\* the preference is away from the first member only while a return is pending
BackOnTime == Timed => (active # 0 => deadline # 0 \/ fired)
NeverLate  == deadline # 0 => now < deadline
\* only a usable response, or the last of n failures, is returned
FirstUsable == \A c \in DOMAIN call : call[c].pc = "ret" => Usable(call[c].out, cfg.sf, cfg.ee) \/ call[c].att = cfg.n
===============================================================================
