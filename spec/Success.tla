------------------------------- MODULE Success -------------------------------
(* When a member's outcome counts as usable. An outcome is                     *)
(* [k |-> "err" | "nil" | "msg", rc |-> rcode, qt |-> type asked for,          *)
(*  ans |-> types of the answer records, ede |-> extended error codes, tok]    *)
EXTENDS Naturals, Sequences
Range(s) == {s[j] : j \in 1..Len(s)}
Servfail == 2  NotImp == 4  Refused == 5  HINFO == 13  ANY == 255
Blocked == 15  Censored == 16  Filtered == 17

Useful(o) == IF Len(o.ans) > 0
             THEN \/ o.qt \in Range(o.ans)
                  \/ o.qt = ANY /\ o.ans # <<HINFO>>
             ELSE Range(o.ede) \cap {Blocked, Censored, Filtered} # {}

Usable(o, sf, ee) ==
  CASE o.k = "err" -> FALSE
    [] o.k = "nil" -> TRUE
    [] OTHER -> /\ o.rc \notin {Refused, NotImp}
                /\ ~(sf /\ o.rc = Servfail)
                /\ (ee => Useful(o))
==============================================================================
