----------------------------- MODULE JsonTrace ------------------------------
(***************************************************************************)
(* Trace validation of printed JSON documents.  X01: the text printed      *)
(* reads back as the same value, and its comment lines hold exactly the    *)
(* comments' words.  X02: lines and styles, seen from any focus, are the   *)
(* documented ones, and the focus is where it was asked for.              *)
(***************************************************************************)
EXTENDS JsonText, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE
VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
C == Cases[tid]
Ev == C.ev[l]

TextVerdict ==
  LET got == ReadAll(WithoutComments(Ev.lines), 1, <<>>) IN
  IF got # Document(C) THEN "the text reads back as another value"
  ELSE IF CommentWords(Ev.lines) # WordsOf(C, C.root) THEN "the comment lines do not hold the comments' words"
  ELSE ""

LineOf(ps) == Merge(<<>>, [i \in 1..Len(ps) |-> <<ps[i][1], ps[i][3]>>])
RECURSIVE SumP(_)
SumP(ps) == IF ps = <<>> THEN 0 ELSE Head(ps)[2] + SumP(Tail(ps))
LenOf(ps) == TextLen([i \in 1..Len(ps) |-> <<ps[i][1]>>])
ViewVerdict ==
  LET d == Displayed(C, C.rs, Ev.tn)
      rows == d.rows
      at == Place(C, d, Ev.tn, Ev.part, Ev.tgt, Ev.n)
  IN
  IF at.k # "ok" THEN IF Ev.r = "err" /\ Ev.msg = at.k THEN "" ELSE "expected " \o at.k
  ELSE IF Ev.r # "ok" THEN Ev.r \o ": " \o Ev.msg
  ELSE IF Len(Ev.lines) # Len(rows) THEN "expected " \o ToString(Len(rows)) \o " lines, got " \o ToString(Len(Ev.lines))
  ELSE LET B == {r \in 1..Len(rows) : LineOf(Ev.lines[r]) # Merge(<<>>, rows[r])} IN
       IF B # {}
       THEN LET r == CHOOSE x \in B : \A y \in B : x <= y
            IN "line " \o ToString(r) \o ": expected " \o ToString(Merge(<<>>, rows[r])) \o ", got " \o ToString(LineOf(Ev.lines[r]))
       ELSE IF Ev.foc # at.row \/ LenOf(SubSeq(Ev.lines[Ev.foc], 1, Ev.cut)) # at.n
       THEN "the focus is expected in line " \o ToString(at.row) \o " after " \o ToString(at.n) \o " characters"
       ELSE ""
Judge ==
  IF Ev.e = "view" THEN ViewVerdict
  ELSE IF Ev.r # "ok" THEN Ev.r \o ": " \o Ev.msg
  ELSE TextVerdict

Init == tid \in 1..Len(Cases) /\ l = 1 /\ verdict = ""
Consume ==
  /\ l <= Len(C.ev) /\ verdict = ""
  /\ \E v \in {Judge} : verdict' = v /\ (IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, v>>))
  /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars
Next == Consume \/ Done
Spec == Init /\ [][Next]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
