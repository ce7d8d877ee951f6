---------------------------- MODULE MCSupervise ----------------------------
(* The supervisor's loop, step by step, against Supervise: taking an event,   *)
(* waiting for the namespace, building, starting in the background, stopping  *)
(* with repeated attempts, retrying after a failure.                          *)
EXTENDS Supervise, TLC
CONSTANTS MaxEvents, MaxFaults, WaitForEnd, Recheck
VARIABLES pc, ln, retry, faults, nev, deaf, ns
mvars == <<queue, present, insts, pc, ln, retry, faults, nev, deaf, ns>>
\* ln: instance in use or 0; ended: taken from insts; deaf: instances not heeding Stop yet
Init == SInit /\ pc = "loop" /\ ln = 0 /\ retry = FALSE /\ faults = 0 /\ nev = 0 /\ deaf = {} /\ ns = FALSE
Flip == /\ nev < MaxEvents /\ nev' = nev + 1 /\ ns' = ~ns /\ Offer(ns')
        /\ UNCHANGED <<pc, ln, retry, faults, deaf>>
\* an event is taken in the loop
Take == /\ pc = "loop" /\ TakeEvent
        /\ IF Head(queue)
           THEN IF ln # 0 THEN UNCHANGED <<pc, retry>> ELSE pc' = "launch" /\ UNCHANGED retry
           ELSE retry' = (~Recheck /\ retry) /\ pc' = IF ln # 0 THEN "stop" ELSE "loop"
        /\ UNCHANGED <<ln, faults, nev, deaf, ns>>
Launch == /\ pc = "launch" /\ retry' = FALSE
          /\ \/ /\ Build(Len(insts) + 1) /\ ln' = Len(insts) + 1 /\ pc' = "started"
                /\ UNCHANGED faults
             \/ /\ faults < MaxFaults /\ faults' = faults + 1 /\ BuildFails
                /\ ln' = 0 /\ pc' = "failed"
          /\ UNCHANGED <<nev, deaf, ns>>
Failed == pc = "failed" /\ pc' = "loop" /\ retry' = TRUE /\ UNCHANGED <<svars, ln, faults, nev, deaf, ns>>
Go == pc = "started" /\ pc' = "loop" /\ UNCHANGED <<svars, ln, retry, faults, nev, deaf, ns>>
\* the background start, possibly long after
BgStart(n) == /\ Start(n)
              /\ \/ UNCHANGED <<deaf, faults>>
                 \/ faults < MaxFaults /\ faults' = faults + 1 /\ deaf' = deaf \cup {n}
              /\ UNCHANGED <<pc, ln, retry, nev, ns>>
BgFail(n) == /\ faults < MaxFaults /\ faults' = faults + 1 /\ Ends(n) /\ UNCHANGED <<pc, ln, retry, nev, deaf, ns>>
\* the loop hears of the end of the one in use
Ended == /\ pc = "loop" /\ ln # 0 /\ insts[ln] = "off"
         /\ ln' = 0 /\ retry' = present
         /\ UNCHANGED <<svars, pc, faults, nev, deaf, ns>>
Retry == /\ pc = "loop" /\ retry
         /\ IF (present \/ ~Recheck) /\ ln = 0 THEN pc' = "launch" ELSE pc' = "loop"
         /\ retry' = FALSE /\ UNCHANGED <<svars, ln, faults, nev, deaf, ns>>
\* one attempt to stop: heeded unless Start has not got going or the listener is deaf for now
StopTry == /\ pc = "stop"
           /\ IF insts[ln] = "on" /\ ln \notin deaf
              THEN Ends(ln) ELSE Stop(ln)
           /\ deaf' = deaf \ {ln}
           /\ pc' = "stopping" /\ UNCHANGED <<ln, retry, faults, nev, ns>>
StopWait == /\ pc = "stopping"
            /\ IF insts[ln] = "off" \/ (~WaitForEnd)
               THEN pc' = "loop" /\ ln' = 0
               ELSE pc' = "stop" /\ ln' = ln
            /\ UNCHANGED <<svars, retry, faults, nev, deaf, ns>>
Next == \/ Flip \/ Take \/ Launch \/ Failed \/ Go \/ Ended \/ Retry \/ StopTry \/ StopWait
        \/ \E n \in 1..Len(insts) : BgStart(n) \/ BgFail(n)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Take) /\ WF_mvars(Launch) /\ WF_mvars(Failed) /\ WF_mvars(Go) /\ WF_mvars(Ended) /\ WF_mvars(Retry)
             /\ WF_mvars(StopTry) /\ WF_mvars(StopWait) /\ \A n \in 1..(MaxEvents + MaxFaults + 1) : WF_mvars(n <= Len(insts) /\ BgStart(n))
NeverTwice == Cardinality(On \cup Pending) <= 1
\* a launch finds the namespace present and nothing in use
LaunchOk == pc = "launch" => MayBuild
Follows == <>[](ns => Cardinality(On) = 1) /\ <>[](~ns => On = {})
=============================================================================
