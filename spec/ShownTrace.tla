----------------------------- MODULE ShownTrace -----------------------------
(***************************************************************************)
(* Trace validation of what is shown to people (Shown).  Each event is one *)
(* thing shown; errors of different kinds in a case have different         *)
(* messages.                                                               *)
(***************************************************************************)
EXTENDS Shown, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
C == Cases[tid]
Ev == C.ev[l]

Is(what, want, got) == IF want = got THEN "" ELSE what \o ": expected " \o want \o ", got " \o got

Notation(x) ==
  LET t == Term(x.e)
      want == Show(t, C.sym)
      v == Is("the notation", want, Ev.shown)
  IN IF v # "" THEN v ELSE IF Ev.valid = "<invalid>" THEN "" ELSE Is("the validated notation", want, Ev.valid)

Err(x) ==
  LET v == Message(x.v, x.nums, Ev.inner, Ev.msg)
      same == {i \in 1..l-1 : C.xs[i].x = "err" /\ C.xs[i].v # x.v /\ C.ev[i].r = "ok" /\ C.ev[i].inner = "" /\ Ev.inner = "" /\ C.ev[i].msg = Ev.msg}
  IN IF v # "" THEN v
     ELSE IF Ev.copy # Ev.msg THEN "a clone says something else: " \o Ev.copy
     ELSE IF Ev.source # Ev.inner THEN "the source: expected " \o Ev.inner \o ", got " \o Ev.source
     ELSE IF same # {} THEN "two problems with the same message: " \o Ev.msg
     ELSE ""

(* positions: shown as row:col; sums; compared by rows, then by columns *)
Place(x) ==
  LET Cmp == IF x.row # x.row2 THEN (IF x.row < x.row2 THEN "<" ELSE ">")
             ELSE IF x.col = x.col2 THEN "=" ELSE IF x.col < x.col2 THEN "<" ELSE ">"
      v == Is("the position", ToString(x.row) \o ":" \o ToString(x.col), Ev.pos)
      w == Is("the size", ToString(x.row2) \o ":" \o ToString(x.col2), Ev.size)
  IN IF v # "" THEN v ELSE IF w # "" THEN w
     ELSE IF Ev.sum # <<x.row + x.row2, x.col + x.col2>> THEN "position plus size: got " \o ToString(Ev.sum)
     ELSE IF Ev.cmp # Cmp THEN "comparison: expected " \o Cmp \o ", got " \o Ev.cmp
     ELSE IF Ev.zero # <<0, 0>> THEN "the zero position is " \o ToString(Ev.zero)
     ELSE ""

Judge ==
  LET x == C.xs[l] IN
  IF Ev.r = "panic" THEN "panic: " \o Ev.msg
  ELSE CASE x.x = "notation" -> Notation(x)
         [] x.x = "err" -> Err(x)
         [] OTHER -> Place(x)

Init == tid \in 1..Len(Cases) /\ l = 1 /\ verdict = ""
Consume ==
  /\ l <= Len(C.ev) /\ verdict = ""
  /\ \E v \in {Judge} : verdict' = v /\ (IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, v>>))
  /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars
Next == Consume \/ Done
Spec == Init /\ [][Next]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
