----------------------------- MODULE PlainTrace -----------------------------
(***************************************************************************)
(* Trace validation of the plain-text window, driven directly (cases with  *)
(* ops: each event carries the text after one operation) or by displaying  *)
(* a pane layout on it (cases with panes: one event per display).          *)
(***************************************************************************)
EXTENDS Panes, Json, IOUtils
P == INSTANCE PlainText

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, rows, foc, verdict
vars == <<tid, l, rows, foc, verdict>>
C == Cases[tid]
Ev == C.ev[l]

(* of many lines, only those that are not empty are recorded *)
Tall == "few" \in DOMAIN Ev
TallOk(rs) ==
  /\ Ev.n = Len(rs)
  /\ {<<Ev.few[i][1], Ev.few[i][2]>> : i \in 1..Len(Ev.few)} = {<<i - 1, P!Join(rs[i])>> : i \in {j \in 1..Len(rs) : rs[j] # <<>>}}

Compare(rs, fs, sorted) ==
  IF Ev.r = "panic" THEN "panic: " \o Ev.msg
  ELSE IF Tall /\ ~TallOk(rs) THEN "expected text in rows " \o ToString({j - 1 : j \in {i \in 1..Len(rs) : rs[i] # <<>>}})
  ELSE IF ~Tall /\ Ev.lines # P!Lines(rs) THEN "expected text " \o ToString(P!Lines(rs)) \o ", got " \o ToString(Ev.lines)
  ELSE IF Ev.tail # "" THEN "the last line does not end in a line break"
  ELSE IF ~sorted /\ Ev.foc # fs THEN "focus points: expected " \o ToString(fs)
  ELSE IF sorted /\ ~(Len(fs) = Len(Ev.foc) /\ {fs[i] : i \in 1..Len(fs)} = {Ev.foc[i] : i \in 1..Len(Ev.foc)}) THEN "focus points: expected " \o ToString(fs)
  ELSE ""

RECURSIVE PaintN(_, _, _)
PaintN(rs, r, n) ==
  IF n = 0 THEN rs ELSE PaintN(P!Display(rs, r.ch, r.row, r.col + (n - 1) * r.w, r.w = 2), r, n - 1)
RECURSIVE PaintAll(_, _)
PaintAll(rs, runs) == IF runs = <<>> THEN rs ELSE PaintAll(PaintN(rs, Head(runs), Head(runs).n), Tail(runs))

Reject(v) == IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, v>>)

Init == tid \in 1..Len(Cases) /\ l = 1 /\ rows = <<>> /\ foc = <<>> /\ verdict = ""
Op ==
  /\ l <= Len(C.ev) /\ verdict = "" /\ Ev.e = "op"
  /\ rows' = IF Ev.op[1] = "c" THEN P!Display(rows, Ev.op[2], Ev.op[3], Ev.op[4], Ev.op[5]) ELSE rows
  /\ foc' = IF Ev.op[1] = "f" THEN Append(foc, <<Ev.op[2], Ev.op[3]>>) ELSE foc
  /\ LET v == IF Ev.r = "ok" /\ Ev.size # C.size THEN "the size is not the one given" ELSE Compare(rows', foc', FALSE)
     IN verdict' = v /\ Reject(v)
  /\ l' = l + 1 /\ UNCHANGED tid
Panes ==
  /\ l <= Len(C.ev) /\ verdict = "" /\ Ev.e = "plain"
  /\ LET e == Expected(C)
         v == IF e.unk \/ e.forced \/ Ev.r = "err" THEN "" ELSE Compare(PaintAll(<<>>, e.runs), e.foc, TRUE)
     IN verdict' = v /\ Reject(v)
  /\ l' = l + 1 /\ UNCHANGED <<tid, rows, foc>>
Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars
Next == Op \/ Panes \/ Done
Spec == Init /\ [][Next]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
