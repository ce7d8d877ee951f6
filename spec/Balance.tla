------------------------------- MODULE Balance -------------------------------
(* Round-robin ("rr"), random ("rnd"), load-balancing ("lb") and fastest        *)
(* ("fast") groups.                                                             *)
EXTENDS Success, FiniteSets, TLC
VARIABLES cfg,   \* [kind, n, reset, sf, ee]
          now,
          next,  \* rr: whose turn it is
          act,   \* rnd: active members
          back,  \* rnd: set of <<member, time it comes back>>
          call   \* [c -> [pc, cur, rem, out, arr]]
bvars == <<cfg, now, next, act, back, call>>

Members == 0..(cfg.n - 1)
ErrOut  == [k |-> "err"]
NoOut   == [k |-> "none"]

BInit(c) == /\ cfg = c /\ now = 0 /\ next = 0
            /\ act = 0..(c.n - 1) /\ back = {} /\ call = <<>>

Begin(c) ==
  /\ c \notin DOMAIN call
  /\ call' = call @@ (c :> [pc |-> IF cfg.kind = "fast" THEN "all" ELSE "next",
                            cur |-> 0, rem |-> Members, out |-> NoOut, arr |-> {}])
  /\ UNCHANGED <<cfg, now, next, act, back>>

\* one critical section choosing the member to ask
Pick(c) ==
  /\ call[c].pc = "next"
  /\ CASE cfg.kind = "rr" ->
            /\ call' = [call EXCEPT ![c].pc = "picked", ![c].cur = next]
            /\ next' = (next + 1) % cfg.n
       [] cfg.kind = "rnd" ->
            /\ IF act = {}
               THEN call' = [call EXCEPT ![c].pc = "ret", ![c].out = ErrOut]
               ELSE \E m \in act : call' = [call EXCEPT ![c].pc = "picked", ![c].cur = m]
            /\ UNCHANGED next
       [] cfg.kind = "lb" ->
            /\ \E m \in call[c].rem : call' = [call EXCEPT ![c].pc = "picked", ![c].cur = m, ![c].rem = @ \ {m}]
            /\ UNCHANGED next
  /\ UNCHANGED <<cfg, now, act, back>>

Ask(c, m) ==
  /\ \/ call[c].pc = "picked" /\ call[c].cur = m
        /\ call' = [call EXCEPT ![c].pc = "asked"]
     \/ cfg.kind = "fast" /\ m \in call[c].rem
        /\ call' = [call EXCEPT ![c].rem = @ \ {m}]
  /\ UNCHANGED <<cfg, now, next, act, back>>

FastUsable(o) == o.k = "nil" \/ (o.k = "msg" /\ o.rc # Servfail)
MUsable(o) == IF cfg.kind = "rr" THEN TRUE ELSE Usable(o, cfg.sf, cfg.ee)

Answer(c, m, o) ==
  /\ \/ /\ cfg.kind # "fast" /\ call[c].pc = "asked" /\ call[c].cur = m
        /\ call' = [call EXCEPT ![c].out = o, ![c].pc = IF MUsable(o) THEN "ret" ELSE "failed"]
     \/ /\ cfg.kind = "fast" /\ m \notin call[c].rem
        /\ \A x \in call[c].arr : x[1] # m
        /\ call' = [call EXCEPT ![c].arr = @ \cup {<<m, now, o>>}]
  /\ UNCHANGED <<cfg, now, next, act, back>>

Failed(c) ==
  /\ call[c].pc = "failed"
  /\ call' = [call EXCEPT ![c].pc = IF cfg.kind = "lb" /\ call[c].rem = {} THEN "ret" ELSE "next"]
  /\ IF cfg.kind = "rnd" /\ call[c].cur \in act
     THEN act' = act \ {call[c].cur} /\ back' = back \cup {<<call[c].cur, now + cfg.reset>>}
     ELSE UNCHANGED <<act, back>>
  /\ UNCHANGED <<cfg, now, next>>

ComeBack == \E b \in back : /\ b[2] = now
                            /\ act' = act \cup {b[1]} /\ back' = back \ {b}
                            /\ UNCHANGED <<cfg, now, next, call>>

\* fastest: outcomes that may be returned now
FastResult(c) ==
  LET u == {x \in call[c].arr : FastUsable(x[3])}
      t == {x[2] : x \in call[c].arr} IN
  IF u # {} THEN {x[3] : x \in u}
  ELSE IF Cardinality(call[c].arr) = cfg.n
       THEN {x[3] : x \in {y \in call[c].arr : \A s \in t : s <= y[2]}}
       ELSE {}

Same(o, p) == IF p.k # "msg" THEN o.k = p.k ELSE o = p

Return(c, o) ==
  /\ \/ call[c].pc = "ret" /\ Same(o, call[c].out)
     \/ call[c].pc = "all" /\ \E p \in FastResult(c) : Same(o, p)
  /\ call' = [call EXCEPT ![c].pc = "gone"]
  /\ UNCHANGED <<cfg, now, next, act, back>>

Quiet == /\ \A b \in back : b[2] # now
         /\ \A c \in DOMAIN call :
              /\ \/ call[c].pc \in {"asked", "gone"}
                 \/ call[c].pc = "all" /\ FastResult(c) = {}
              /\ cfg.kind = "fast" => call[c].rem = {}

Pass(t) == /\ t > now /\ Quiet
           /\ LET due == {b[2] : b \in back} \cup {t}
              IN now' = CHOOSE x \in due : \A y \in due : x <= y
           /\ UNCHANGED <<cfg, next, act, back, call>>

\* long-run behaviour: shares[m] of `total` queries, bounds given by what is promised
Shares(e) == \A m \in 1..Len(e.got) : e.got[m] >= e.min[m] /\ e.got[m] <= e.max[m]
------------------------------------------------------------------------------
CONSTANTS Calls, MaxTime, Cfgs
VARIABLES asked
mvars == <<cfg, now, next, act, back, call, asked>>
Outs == {[k |-> "err", rc |-> 0, qt |-> 1, ans |-> <<>>, ede |-> <<>>],
         [k |-> "msg", rc |-> 0, qt |-> 1, ans |-> <<1>>, ede |-> <<>>]}
MInit == \E c \in Cfgs : BInit(c) /\ asked = <<>>
MNext ==
  \/ \E c \in Calls : Begin(c) /\ asked' = asked @@ (c :> <<>>)
  \/ \E c \in DOMAIN call :
       \/ (Pick(c) \/ Failed(c) \/ (\E o \in Outs \cup {ErrOut} : Return(c, o))
           \/ (\E o \in Outs, m \in Members : Answer(c, m, o))) /\ UNCHANGED asked
       \/ \E m \in Members : Ask(c, m) /\ asked' = [asked EXCEPT ![c] = IF cfg.kind \in {"lb", "fast"} THEN Append(@, m) ELSE @]
  \/ ComeBack /\ UNCHANGED asked
  \/ now < MaxTime /\ Pass(now + 1) /\ UNCHANGED asked
\* a removed member is always on its way back, exactly once
BackOnce == cfg.kind = "rnd" => /\ act \cup {b[1] : b \in back} = Members
                                /\ act \cap {b[1] : b \in back} = {}
                                /\ Cardinality(back) = cfg.n - Cardinality(act)
AtMostOnce == cfg.kind \in {"lb", "fast"} => \A c \in DOMAIN asked : Cardinality(Range(asked[c])) = Len(asked[c])
\* an answer is given up only when nobody is left
NoEarlyFailure == \A c \in DOMAIN call : call[c].pc = "ret" /\ cfg.kind = "lb" /\ ~MUsable(call[c].out) => call[c].rem = {}
Rotation == cfg.kind = "rr" =>
   \A m1, m2 \in Members :
     LET n(m) == Cardinality({c \in DOMAIN call : call[c].pc # "next" /\ call[c].cur = m})
     IN n(m1) <= n(m2) + 1
==============================================================================
