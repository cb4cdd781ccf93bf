----------------------------- MODULE TreeTrace ------------------------------
(***************************************************************************)
(* Trace validation of tree nodes: after each operation, made by some      *)
(* thread, the node that came out (its public fields, and what the         *)
(* PrettyDoc methods say of it and its descendants) is the one the state   *)
(* machine makes.                                                          *)
(***************************************************************************)
EXTENDS TreeNodes, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, cnt, heap, verdict
vars == <<tid, l, cnt, heap, verdict>>
C == Cases[tid]
Ev == C.ev[l]
Op == C.ops[l]

Judge(x) ==
  IF Ev.r # "ok" THEN Ev.r \o ": " \o Ev.msg
  ELSE IF ~NodeOp(Op) THEN ""
  ELSE IF Ev.node # x THEN "the node is not the one built: expected " \o ToString(x)
  ELSE IF Ev.view # View(x, C.labels) THEN "the node's methods: expected " \o ToString(View(x, C.labels)) \o ", got " \o ToString(Ev.view)
  ELSE IF Ev.last # (IF x.ch = <<>> THEN -1 ELSE x.ch[Len(x.ch)].id) THEN "last child"
  ELSE IF Ev.prev # [i \in 1..(IF x.ch = <<>> THEN 0 ELSE Len(x.ch) - 1) |-> x.ch[i].id] THEN "previous siblings"
  ELSE ""
Init == /\ tid \in 1..Len(Cases) /\ l = 1 /\ verdict = ""
        /\ cnt = [t \in 1..C.threads |-> 0] /\ heap = << >>
Step ==
  /\ l <= Len(C.ops) /\ verdict = ""
  /\ heap' = Heap(cnt, heap, Op)
  /\ cnt' = Counters(cnt, Op)
  /\ LET v == Judge(IF ~NodeOp(Op) THEN <<>> ELSE heap'[Op[3]])
     IN verdict' = v /\ (IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, v>>))
  /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(C.ops) /\ verdict = "" /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
