----------------------------- MODULE TraceUtil -----------------------------
(* Shared by all trace modules. A trace file has one JSON object per line:   *)
(* [cfg |-> configuration of the run, ev |-> sequence of observed events].   *)
(* TLC register k holds the number of events of trace k that some behaviour  *)
(* of the specification explains; the post-condition reports every trace not *)
(* explained to its end.                                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT     == Len(Traces)

InitRegisters == \A k \in 1..NT : TLCSet(k, 0)

\* progress note: n events of trace k explained
Explained(k, n) == IF TLCGet(k) < n THEN TLCSet(k, n) ELSE TRUE

\* stop exploring alternatives once a trace is explained completely
Open(k, n) == n = Len(Traces[k].ev) \/ TLCGet(k) < Len(Traces[k].ev)

Report ==
  /\ \A k \in 1..NT :
       \/ TLCGet(k) = Len(Traces[k].ev)
       \/ PrintT(<<"REJECT", k, TLCGet(k)>>)
  /\ PrintT("VALIDATION-DONE")
=============================================================================
