----------------------------- MODULE FocusTrace -----------------------------
(***************************************************************************)
(* Property L02.  The reference is the real code's own print of the whole  *)
(* document (session 0 of each case, recorded first).  Every other session *)
(* is a pair of cursors somewhere in those rows; which row it is focused   *)
(* on is not observable, so the state holds the set of all pairs that      *)
(* explain what the session has returned so far.  Each request moves one   *)
(* cursor of each pair and keeps the pairs whose row matches.  An empty    *)
(* set means that no focus explains the lines.                             *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, rows, ss, verdict
vars == <<tid, l, rows, ss, verdict>>

C == Cases[tid]
Ev == C.ev[l]

Row(e) == Norm(e.L)
(* the whole print: rows of session 0, or "skip" if it does not print *)
RECURSIVE Collect(_, _)
Collect(i, acc) ==
  LET e == C.ev[i] IN
  IF e.sid # 0 \/ e.e = "up" \/ e.r = "none" THEN [ok |-> TRUE, rows |-> acc, next |-> i]
  ELSE IF e.r # "line" THEN [ok |-> FALSE, rows |-> acc, next |-> i]
  ELSE Collect(i + 1, Append(acc, Row(e)))
Whole ==
  IF C.ev[1].r # "ok" THEN [ok |-> FALSE, rows |-> <<>>, next |-> 2]
  ELSE Collect(2, <<Norm(C.ev[1].L \o C.ev[1].R)>>)

FocusErrors == {"InvalidPath", "MissingText", "MissingFocusMark"}

Judge ==
  LET s == IF Ev.e \in {"up", "down"} THEN ss[Ev.sid] ELSE {} IN
  IF Ev.r = "panic" THEN [v |-> "panic: " \o Ev.msg, s |-> {}]
  ELSE IF Ev.e = "open" THEN
    IF Ev.r = "err"
    THEN [v |-> IF Ev.err.k \in FocusErrors THEN "" ELSE "error " \o Ev.err.k \o " although the whole document prints", s |-> {}]
    ELSE LET o == Norm(Ev.L \o Ev.R)
             S == {<<r - 1, r + 1>> : r \in {r \in 1..Len(rows) : rows[r] = o}}
         IN [v |-> IF S = {} THEN "the focused line is not a line of the whole document: " \o ToString(o) ELSE "", s |-> S]
  ELSE IF Ev.r = "err" THEN [v |-> "error " \o Ev.err.k \o " although the whole document prints", s |-> {}]
  ELSE IF Ev.e = "up" THEN
    LET S == IF Ev.r = "none" THEN {p \in s : p[1] = 0}
             ELSE LET o == Row(Ev) IN {<<p[1] - 1, p[2]>> : p \in {p \in s : p[1] > 0 /\ rows[p[1]] = o}}
    IN [v |-> IF S = {} THEN "no such line above: " \o (IF Ev.r = "none" THEN "none" ELSE ToString(Row(Ev))) ELSE "", s |-> S]
  ELSE
    LET S == IF Ev.r = "none" THEN {p \in s : p[2] = Len(rows) + 1}
             ELSE LET o == Row(Ev) IN {<<p[1], p[2] + 1>> : p \in {p \in s : p[2] <= Len(rows) /\ rows[p[2]] = o}}
    IN [v |-> IF S = {} THEN "no such line below: " \o (IF Ev.r = "none" THEN "none" ELSE ToString(Row(Ev))) ELSE "", s |-> S]

Init == tid \in 1..Len(Cases) /\ l = 0 /\ rows = <<>> /\ ss = << >> /\ verdict = ""

ReadWhole ==
  /\ l = 0
  /\ \E w \in {Whole} :
     /\ rows' = w.rows
     /\ l' = IF w.ok THEN w.next ELSE Len(C.ev) + 1
  /\ UNCHANGED <<tid, ss, verdict>>

Consume ==
  /\ l > 0 /\ l <= Len(C.ev) /\ verdict = ""
  /\ IF Ev.sid = 0
     THEN /\ verdict' = (IF Ev.r = "none" THEN "" ELSE "a line above or below the whole document")
          /\ UNCHANGED ss
     ELSE \E j \in {Judge} : verdict' = j.v /\ ss' = (Ev.sid :> j.s) @@ ss
  /\ IF verdict' = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, verdict'>>)
  /\ l' = l + 1
  /\ UNCHANGED <<tid, rows>>

(* every behaviour must get here: a behaviour that is stuck earlier is a deadlock *)
Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars

Next == ReadWhole \/ Consume \/ Done
Spec == Init /\ [][Next]_vars

Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
