----------------------------- MODULE WidthTrace -----------------------------
(* Recorded whole prints, at several widths, of documents that obey the rule. *)
EXTENDS Widths, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, pre, verdict
vars == <<tid, l, pre, verdict>>
C == Cases[tid]
Ev == C.ev[l]

Init == tid \in 1..Len(Cases) /\ l = 0 /\ pre = <<>> /\ verdict = ""
Prepare == /\ l = 0
           /\ \E CC \in {C} : pre' \in {[obeys |-> Obeys(CC), one |-> RowsOf(CC, 1), two |-> RowsOf(CC, 2)]}
           /\ l' = 1 /\ UNCHANGED <<tid, verdict>>

(* events: [W, r, ws (widths of the printed lines)] *)
Judge ==
  IF ~pre.obeys THEN ""
  ELSE IF Ev.r = "panic" THEN "panic: " \o Ev.msg
  ELSE IF MustBeOneLine(C, pre.one, Ev.W)
  THEN IF Ev.r = "ok" /\ Ev.ws = pre.one THEN "" ELSE "fits on one line of width " \o ToString(pre.one) \o " but is printed otherwise"
  ELSE IF MustFit(C, pre.two, Ev.W)
  THEN IF Ev.r = "ok" /\ \A i \in 1..Len(Ev.ws) : Ev.ws[i] <= Ev.W THEN "" ELSE "a line exceeds the width"
  ELSE ""
Consume ==
  /\ l > 0 /\ l <= Len(C.ev) /\ verdict = ""
  /\ verdict' = Judge
  /\ IF verdict' = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, verdict'>>)
  /\ l' = l + 1 /\ UNCHANGED <<tid, pre>>
Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars
Spec == Init /\ [][Prepare \/ Consume \/ Done]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
