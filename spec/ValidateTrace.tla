--------------------------- MODULE ValidateTrace ---------------------------
(* Each case is a batch of terms with what the real validation said of each. *)
EXTENDS Validate, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
C == Cases[tid]

(* r = "ok", "panic", or the name of the error; i = its index *)
Judge(t, e) ==
  LET f == Flaws(t) IN
  IF e.r = "panic" THEN "panic"
  ELSE IF e.r = "ok" THEN IF f = {} THEN "" ELSE "accepted in spite of " \o ToString(f)
  ELSE IF f = {} THEN "rejected a flawless notation as " \o e.r
  ELSE IF <<e.r, e.i>> \in f THEN "" ELSE "wrong flaw " \o e.r \o ", has " \o ToString(f)

Init == tid \in 1..Len(Cases) /\ l = 1 /\ verdict = ""
Consume ==
  /\ l <= Len(C.ev) /\ verdict = ""
  /\ verdict' = Judge(C.terms[l], C.ev[l])
  /\ IF verdict' = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, verdict'>>)
  /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(C.ev) /\ Len(C.ev) = Len(C.terms) /\ verdict = "" /\ UNCHANGED vars
Spec == Init /\ [][Consume \/ Done]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
