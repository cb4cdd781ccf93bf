----------------------------- MODULE TermTrace ------------------------------
(***************************************************************************)
(* Trace validation of constructors, operators and serialization: the      *)
(* notation built from each expression is the one it abbreviates, before   *)
(* and after it was serialized and deserialized.                           *)
(***************************************************************************)
EXTENDS Shorthand, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
C == Cases[tid]
Ev == C.ev[l]
Judge ==
  IF "W" \in DOMAIN C   \* a document, printed with its notations as they are and after serialization
  THEN (IF Ev.plain = Ev.after THEN "" ELSE "the document prints differently after its notations were serialized")
  ELSE IF Ev.r = "panic" THEN "panic: " \o Ev.msg
  ELSE LET t == Term(C.terms[l]) IN
  IF Canon(Ev.built) # Canon(t) THEN "not the notation it abbreviates: expected " \o ToString(t) \o ", got " \o ToString(Ev.built)
  ELSE IF Ev.r = "err" THEN "serialization: " \o Ev.msg
  ELSE IF Ev.back # Ev.built \/ Ev.tree # Ev.built THEN "serialization changed it: expected " \o ToString(Ev.built) \o ", got " \o ToString(Ev.back)
  ELSE ""
Init == tid \in 1..Len(Cases) /\ l = 1 /\ verdict = ""
Consume ==
  /\ l <= Len(C.ev) /\ verdict = ""
  /\ \E v \in {Judge} : verdict' = v /\ (IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, v>>))
  /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars
Next == Consume \/ Done
Spec == Init /\ [][Next]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
