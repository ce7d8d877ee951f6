------------------------------ MODULE Supervise ------------------------------
(* A listener that follows a network namespace. Namespace events are offered  *)
(* to the supervisor, which takes them one by one. `insts` are the listeners  *)
(* it has built: "built", "on" (Start has been called and has not returned),  *)
(* "off" (Start has returned).                                                *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES queue,    \* offered, not yet taken
          present,  \* as last taken
          insts
svars == <<queue, present, insts>>
SInit == queue = <<>> /\ present = FALSE /\ insts = <<>>

Offer(p) == queue' = Append(queue, p) /\ UNCHANGED <<present, insts>>
TakeEvent == queue # <<>> /\ present' = Head(queue) /\ queue' = Tail(queue) /\ UNCHANGED insts

On == {n \in 1..Len(insts) : insts[n] = "on"}
Pending == {n \in 1..Len(insts) : insts[n] = "built"}
\* a listener is built only for a namespace taken to be present, with none in use
MayBuild == present /\ On = {} /\ Pending = {}
BuildFails == MayBuild /\ UNCHANGED svars
Build(n) == MayBuild /\ n = Len(insts) + 1 /\ insts' = Append(insts, "built") /\ UNCHANGED <<queue, present>>
\* each one is started once, and never besides another
Start(n) == n \in Pending /\ On = {} /\ insts' = [insts EXCEPT ![n] = "on"] /\ UNCHANGED <<queue, present>>
\* Start returns: by itself (it failed) or because it was stopped
Ends(n) == n \in On /\ insts' = [insts EXCEPT ![n] = "off"] /\ UNCHANGED <<queue, present>>
\* one still wanted is not stopped; one never heard of neither. A listener may be
\* told to stop before its Start has got going.
Stop(n) == n \in 1..Len(insts) /\ (~present \/ insts[n] = "off") /\ UNCHANGED svars

\* long after the last event and the last failure
Settled(now) == /\ queue = <<>> /\ present = now
                /\ Pending = {}
                /\ Cardinality(On) = IF present THEN 1 ELSE 0
                /\ (present => On = {Len(insts)})
                /\ UNCHANGED svars

(* What a subscriber to the presence of a name has been told, against what is.*)
WatchOk(e) ==
    /\ Len(e.told) > 0 /\ e.told[Len(e.told)] = e.now
    /\ \A k \in 1..(Len(e.told) - 1) : e.told[k] # e.told[k + 1]
    \* replaced since last told: has to hear of it
    /\ e.replaced => Len(e.told) >= 2
=============================================================================
