----------------------------- MODULE StyleTrace -----------------------------
(***************************************************************************)
(* Trace validation of the example style (BasicStyles): labels, building,  *)
(* combining, and the style printed text has inside nodes and regions.     *)
(***************************************************************************)
EXTENDS BasicStyles, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
C == Cases[tid]
Ev == C.ev[l]
RECURSIVE All(_)
All(ss) == IF Len(ss) = 1 THEN ss[1] ELSE Combine(All(SubSeq(ss, 1, Len(ss) - 1)), ss[Len(ss)])
Want(x) ==
  CASE x.x = "label" -> Named(x.s)
    [] x.x = "build" -> Built(x.ops)
    [] x.x = "combine" -> All(x.ss)
    [] OTHER -> Shown(x.root, x.nodes)
Judge ==
  IF Ev.r = "panic" THEN "panic: " \o Ev.msg
  ELSE LET w == Want(C.xs[l]) IN
       IF \A i \in 1..Len(Ev.got) : Ev.got[i] = w THEN "" ELSE "expected style " \o ToString(w) \o ", got " \o ToString(Ev.got)
Init == tid \in 1..Len(Cases) /\ l = 1 /\ verdict = ""
Consume ==
  /\ l <= Len(C.ev) /\ verdict = ""
  /\ \E v \in {Judge} : verdict' = v /\ (IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, v>>))
  /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars
Next == Consume \/ Done
Spec == Init /\ [][Next]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
