----------------------------- MODULE ScriptPool -----------------------------
(* A script element: at most `size` scripts run at once, a free slot is never *)
(* kept from a waiting caller, and every caller gets what its own run gave,   *)
(* whatever earlier runs did.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES size, calls
\* calls[c] = [act |-> what the script does for it, st |-> "wait" | "run" | "up" | "ret", up |-> what the upstream gave]
pvars == <<size, calls>>
PInit(n) == size = n /\ calls = <<>>
\* certainly holding a slot; one whose upstream has answered may have given it back already
Busy == {c \in DOMAIN calls : calls[c].st \in {"run", "up"}}
Live == {c \in DOMAIN calls : calls[c].st # "ret"}
NoUp == [k |-> "none", tag |-> ""]

Arrive(c, a) == /\ c \notin DOMAIN calls
                /\ calls' = [x \in DOMAIN calls \cup {c} |-> IF x = c THEN [act |-> a, st |-> "wait", up |-> NoUp] ELSE calls[x]]
                /\ UNCHANGED size
\* the script is taken up for a caller: only with a free slot
Take(c) == /\ calls[c].st = "wait" /\ Cardinality(Busy) < size
           /\ calls' = [calls EXCEPT ![c].st = "run"] /\ UNCHANGED size
\* scripts that ask upstream
Asking == {"pass", "passerr", "both", "upthenraise", "upthenbad", "corup", "guarded", "choose"}
Ask(c) == /\ calls[c].st = "run" /\ calls[c].act \in Asking
          /\ calls' = [calls EXCEPT ![c].st = "up"] /\ UNCHANGED size
Answered(c, u) == /\ calls[c].st = "up"
                  /\ calls' = [calls EXCEPT ![c].st = "back", ![c].up = u] /\ UNCHANGED size

(* What each kind of script returns; `own` is the caller's tag.               *)
Msg(o, t)  == o.k = "msg" /\ o.tag = t /\ o.err = ""
Err(o, t)  == o.k = "none" /\ o.err = t
Some(o)    == o.k = "none" /\ o.err # ""
Drop(o)    == o.k = "none" /\ o.err = ""
Outcome(a, own, u, o) ==
  CASE a \in {"pass", "corup", "guarded"} ->
            CASE u.k = "msg" -> Msg(o, u.tag)
              [] u.k = "err" -> Err(o, u.tag)
              [] u.k = "nil" -> Drop(o)
              [] OTHER -> Some(o)          \* the upstream crashed
    [] a = "choose" -> \* tells a message, an error and a drop apart
            CASE u.k = "msg" -> Msg(o, u.tag)
              [] u.k = "err" -> Msg(o, own)
              [] u.k = "nil" -> Err(o, own)
              [] OTHER -> Some(o)
    [] a = "passerr" -> IF u.k = "panic" THEN Some(o) ELSE Err(o, own)
    [] a = "both"    -> IF u.k = "panic" THEN Some(o)
                        ELSE IF u.k = "msg" THEN o.k = "msg" /\ o.tag = u.tag /\ o.err = own
                        ELSE Err(o, own)
    [] a \in {"upthenraise", "upthenbad"} -> Some(o)
    [] a = "make"   -> Msg(o, own)
    [] a = "error"  -> Err(o, own)
    [] a = "drop"   -> Drop(o)
    [] a = "less"   -> Drop(o)             \* nothing returned is nil, nil
    [] a = "single" -> Msg(o, own)         \* one value: the message and nil
    [] a = "extra"  -> Msg(o, own)         \* more than two values
    [] OTHER -> Some(o)                    \* raised, wrong type, endless recursion, ...
Return(c, o, own) ==
    /\ calls[c].st \in IF calls[c].act \in Asking THEN {"back"} ELSE {"wait", "run"}
    /\ Outcome(calls[c].act, own, calls[c].up, o) = TRUE
    /\ calls' = [calls EXCEPT ![c].st = "ret"] /\ UNCHANGED size
\* nothing moves any more: whoever could run is running (and waits for the upstream)
Quiet(up) == /\ {c \in DOMAIN calls : calls[c].st = "up"} = up
             /\ Cardinality(up) = (IF Cardinality(Live) < size THEN Cardinality(Live) ELSE size)
             /\ UNCHANGED pvars
\* many runs of one kind one after the other, none asking upstream
BatchOk(a, outs, own) == \A k \in 1..Len(outs) : Outcome(a, own, NoUp, outs[k])

(* The sandbox: which facilities a script may reach. An attempt has an effect *)
(* (a file touched, a process made, code loaded) or none.                     *)
AttemptOk(e) == e.sandbox => e.effects = <<>> /\ ~e.code /\ ~e.died
\* acceptance at start
StartOk(e) == e.accepted = (e.syntax /\ e.runs /\ e.entry)
=============================================================================
