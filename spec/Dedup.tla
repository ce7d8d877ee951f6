-------------------------------- MODULE Dedup --------------------------------
(* Request de-duplication. A caller arrives, enters (one critical section:     *)
(* becomes the leader of its key or joins the lookup in flight), the leader    *)
(* performs the lookup, the lookup finishes, is removed from the table, and    *)
(* everybody returns with its outcome.                                         *)
EXTENDS Naturals, FiniteSets, TLC

VARIABLES call,  \* [caller -> [key, pc, lead, out]]
          infl   \* [key -> leader]
dvars == <<call, infl>>

DInit == call = <<>> /\ infl = <<>>

Arrive(c, k) ==
  /\ c \notin DOMAIN call
  /\ call' = call @@ (c :> [key |-> k, pc |-> "new", lead |-> c, out |-> "none"])
  /\ UNCHANGED infl

Enter(c) ==
  /\ call[c].pc = "new"
  /\ IF call[c].key \in DOMAIN infl
     THEN /\ call' = [call EXCEPT ![c].pc = "wait", ![c].lead = infl[call[c].key]]
          /\ UNCHANGED infl
     ELSE /\ call' = [call EXCEPT ![c].pc = "lead"]
          /\ infl' = infl @@ (call[c].key :> c)

LookupStart(c) == call[c].pc = "lead" /\ call' = [call EXCEPT ![c].pc = "up"] /\ UNCHANGED infl

LookupFinish(c, o) ==
  /\ call[c].pc = "up"
  /\ call' = [call EXCEPT ![c].pc = "fin", ![c].out = o]
  /\ UNCHANGED infl

Remove(c) ==
  /\ call[c].pc = "fin"
  /\ call' = [call EXCEPT ![c].pc = "rem"]
  /\ infl' = [k \in DOMAIN infl \ {call[c].key} |-> infl[k]]

Finished(c) == call[c].pc \in {"fin", "rem", "gone"}

Return(c, o) ==
  /\ \/ call[c].pc = "rem"
     \/ call[c].pc = "wait" /\ Finished(call[c].lead)
  /\ o = call[call[c].lead].out
  /\ call' = [call EXCEPT ![c].pc = "gone"]
  /\ UNCHANGED infl

\* nothing can happen any more without the environment
Quiet == \A c \in DOMAIN call :
           \/ call[c].pc \in {"gone", "up"}
           \/ call[c].pc = "wait" /\ call[call[c].lead].pc = "up"

OneLookupPerKey == \A c, d \in DOMAIN call :
   call[c].pc \in {"lead", "up"} /\ call[d].pc \in {"lead", "up"} /\ call[c].key = call[d].key => c = d
OnlyEqualKeysShare == \A c \in DOMAIN call : call[call[c].lead].key = call[c].key
------------------------------------------------------------------------------
CONSTANTS Callers, Keys, Outs
Next == \E c \in Callers :
   \/ \E k \in Keys : Arrive(c, k)
   \/ c \in DOMAIN call /\ (Enter(c) \/ LookupStart(c) \/ Remove(c) \/ \E o \in Outs : LookupFinish(c, o) \/ Return(c, o))
Steps(c) == c \in DOMAIN call /\ (Enter(c) \/ LookupStart(c) \/ Remove(c) \/ \E o \in Outs : LookupFinish(c, o) \/ Return(c, o))
Spec == DInit /\ [][Next]_dvars /\ \A c \in Callers : WF_dvars(Steps(c))
EverybodyReturns == \A c \in Callers : (c \in DOMAIN call) ~> (c \in DOMAIN call /\ call[c].pc = "gone")
==============================================================================
