------------------------------ MODULE PPTrace -------------------------------
(***************************************************************************)
(* Trace validation of the printer.  Each line of the trace file is a case *)
(* (document, width, root style) with the API calls made on it and what    *)
(* they returned, in order.  TLC starts one behaviour per case: first the  *)
(* reference layout is computed, then each recorded event must be one the  *)
(* session state machine allows in its current state; if it is not, the    *)
(* behaviour records why in `verdict` and the invariant Accepted fails.    *)
(*                                                                         *)
(* A session is a pair of cursors around the focused row: requesting the   *)
(* next line above or below moves one cursor and must return that row.     *)
(* Sessions on the same document are independent of each other.            *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE

VARIABLES tid,      \* which case
          l,        \* next event (0: layout not computed yet)
          lay,      \* the reference layout
          errs,     \* errors printing the document may run into
          ss,       \* sessions: sid -> cursors
          verdict   \* "" or why the case was rejected
vars == <<tid, l, lay, errs, ss, verdict>>

C == Cases[tid]
Ev == C.ev[l]

Styled == Mode = "L05"      \* compare styles, widths and strings
OnlyFocus == Mode = "L03"   \* compare where the focus is, not the layout of other lines
Faulty == Mode = "L09"
Huge == Mode = "L13"        \* long strings are abbreviated, whole prints cannot be compared

(* Do the observed segments show the expected row? *)
SameLine(obs, exp) ==
  IF Styled THEN Norm(obs) = Norm(exp) ELSE TextOf(obs) = TextOf(exp)
RECURSIVE SumObs(_)
SumObs(obs) == IF obs = <<>> THEN 0 ELSE obs[1][2] + SumObs(Tail(obs))

HasErr(e) == \E x \in errs : x.k = e.k /\ x.i = e.i /\ x.n = e.n
(* a fold over a node that contains text: any mismatch error will do *)
FoldOnText == \E x \in errs : x.k = "FoldOnText"
Mismatch == {"TextNotationOnTextlessDoc", "ChildIndexOutOfBounds", "ChildNotationOnChildlessDoc",
             "CheckPosChildIndexOutOfBounds", "CheckPosChildOnChildlessDoc",
             "CountNotationOnChildlessDoc", "NumChildrenChanged"}
OkErr(e) == HasErr(e) \/ (FoldOnText /\ e.k \in Mismatch)

BadRow(r) == r <= Len(lay.rows) /\ lay.rows[r].bad # NoErr
EolRow(r) == r <= Len(lay.rows) /\ lay.rows[r].bad.k = "TextAfterEndOfLine"
Unknown == lay.st = "unknown"

(* a fault injected by the document during this very call must come out, and nothing else may *)
FaultVerdict ==
  IF Ev.r = "panic" THEN "panic: " \o Ev.msg
  ELSE IF Ev.fired
  THEN IF Ev.r # "err" THEN "a document error was swallowed"
       ELSE IF Ev.err.k # "PrettyDoc" \/ Ev.err.i # Ev.at THEN "a document error was changed"
       ELSE IF Ev.after # 0 THEN "the document was called again after its error"
       ELSE ""
  ELSE IF Ev.r = "err" /\ Ev.err.k = "PrettyDoc" THEN "document error reported although no call failed"
  ELSE ""

ErrVerdictOpen(f) ==
  LET e == Ev.err IN
  IF Ev.fired THEN ""
  ELSE IF OkErr(e) THEN ""
  ELSE IF e.k = "TextAfterEndOfLine"
  THEN IF \E r \in 1..Len(lay.rows) : EolRow(r) /\ (IF f.ok THEN r <= f.row ELSE TRUE) THEN ""
       ELSE IF Unknown THEN "" ELSE "text-after-end-of-line error without such a line"
  ELSE IF ~f.ok /\ f.err.k = e.k /\ f.err.i = e.i THEN ""
  ELSE IF Unknown /\ e.k \in {"InvalidPath", "MissingText", "MissingFocusMark"} THEN ""
  ELSE IF f.ok THEN "unexpected error " \o e.k ELSE "expected " \o f.err.k \o ", got " \o e.k

(* pieces report their own width, lines the sum of those *)
(* the widest width there is stands for everything wider *)
Capped(n) == IF n > 65535 THEN 65535 ELSE n
(* the width of what is left of the focus; -1 if not known (a focus in a long text) *)
LeftWidth(row, f) ==
  LET d == lay.mk[Walk(lay, 1, Ev.path).m].d
      n == C.D[d]
      x == row.segs[f.seg + 1]
  IN IF f.off = 0 THEN SumW(SubSeq(row.segs, 1, f.seg))
     ELSE IF "pw" \in DOMAIN n
     THEN SumW(SubSeq(row.segs, 1, f.seg)) + n.pw[IF f.off > Len(n.pw) THEN Len(n.pw) ELSE f.off]
     ELSE -1

OpenVerdict ==
  LET f == Focus(lay, Ev.path, Ev.tgt, Ev.pos) IN
  IF Ev.r = "err" THEN [v |-> ErrVerdictOpen(f), s |-> <<>>]
  ELSE IF ~f.ok
  THEN IF Unknown THEN [v |-> "", s |-> [free |-> TRUE]]
       ELSE [v |-> "expected " \o f.err.k \o ", got a line", s |-> <<>>]
  ELSE
  LET row == lay.rows[f.row]
      S == [free |-> FALSE, up |-> f.row - 1, dn |-> f.row + 1]
      Bad(why) == [v |-> why, s |-> S]
  IN
  IF row.bad # NoErr /\ lay.st = "done" THEN Bad("a line was returned whose layout is an error: " \o row.bad.k)
  ELSE IF row.bad # NoErr THEN [v |-> "", s |-> [free |-> TRUE]]
  ELSE IF ~SameLine(Ev.L \o Ev.R, row.segs) THEN
       Bad("focused line: expected " \o ToString(IF Styled THEN Norm(row.segs) ELSE TextOf(row.segs)))
  ELSE IF Mode \in {"L03", "L05"} /\ ~SameLine(Ev.L, LeftOf(row, f)) THEN
       Bad("left of the focus: expected " \o ToString(IF Styled THEN Norm(LeftOf(row, f)) ELSE TextOf(LeftOf(row, f))))
  ELSE IF Mode \in {"L03", "L05"} /\ ~SameLine(Ev.R, RightOf(row, f)) THEN
       Bad("right of the focus: expected " \o ToString(IF Styled THEN Norm(RightOf(row, f)) ELSE TextOf(RightOf(row, f))))
  ELSE IF Styled /\ (\/ Ev.ws[1] # SumObs(Ev.L) \/ Ev.ws[2] # SumObs(Ev.R)
                     \/ Ev.ws[3] # SumObs(Ev.L) + SumObs(Ev.R) \/ Ev.ws[3] # row.w
                     \/ Ev.ss[1] # TextOf(Ev.L) \/ Ev.ss[2] # TextOf(Ev.R) \/ Ev.ss[3] # TextOf(Ev.L) \o TextOf(Ev.R))
  THEN Bad("width or string of the focused line, expected width " \o ToString(row.w))
  ELSE IF Styled /\ LeftWidth(row, f) \notin {Ev.ws[1], -1}
  THEN Bad("width of what is left of the focus, expected " \o ToString(LeftWidth(row, f)))
  ELSE IF Huge /\ (\/ Ev.ws[1] # Capped(SumObs(Ev.L)) \/ Ev.ws[2] # Capped(SumObs(Ev.R))
                  \/ Ev.ws[3] # Capped(SumObs(Ev.L) + SumObs(Ev.R)))
  THEN Bad("widths of the focused line")
  ELSE [v |-> "", s |-> S]

LineVerdict(s, up) ==
  LET r == IF up THEN s.up ELSE s.dn
      Moved == IF up THEN [s EXCEPT !.up = @ - 1] ELSE [s EXCEPT !.dn = @ + 1]
      Bad(why) == [v |-> why, s |-> s]
      Ok == [v |-> "", s |-> Moved]
  IN
  IF s.free THEN Ok
  ELSE IF r < 1 \/ (r > Len(lay.rows) /\ ~Unknown)
  THEN IF Ev.r = "none" THEN [v |-> "", s |-> s]
       ELSE IF Ev.r = "err" /\ Ev.fired THEN Ok ELSE Bad("expected the end of the document, got " \o Ev.r)
  ELSE IF r >= Len(lay.rows) /\ Unknown
  THEN IF Ev.r = "err" /\ ~OkErr(Ev.err) /\ Ev.err.k # "TextAfterEndOfLine" /\ ~Ev.fired THEN Bad("unexpected error " \o Ev.err.k)
       ELSE IF r = Len(lay.rows) /\ Ev.r # "err" THEN Bad("a line was returned whose layout is an error")
       ELSE [v |-> "", s |-> [s EXCEPT !.free = TRUE]]
  ELSE
  LET row == lay.rows[r] IN
  IF Ev.r = "none" THEN Bad("expected another line: " \o TextOf(row.segs))
  ELSE IF Ev.r = "err"
  THEN IF Ev.fired \/ OkErr(Ev.err) THEN Ok
       \* looking for the row above may lay out rows further up first
       ELSE IF Ev.err.k = "TextAfterEndOfLine" /\ (EolRow(r) \/ (up /\ \E x \in 1..r : EolRow(x))) THEN Ok
       ELSE Bad("unexpected error " \o Ev.err.k)
  ELSE IF row.bad # NoErr THEN Bad("a line was returned whose layout is an error: " \o row.bad.k)
  ELSE IF ~SameLine(Ev.L, row.segs) THEN
       Bad("line " \o ToString(r) \o ": expected " \o ToString(IF Styled THEN Norm(row.segs) ELSE TextOf(row.segs)))
  ELSE IF Styled /\ (Ev.ws[1] # SumObs(Ev.L) \/ Ev.ws[1] # row.w \/ Ev.ss[1] # TextOf(Ev.L))
  THEN Bad("width or string of the line, expected width " \o ToString(row.w))
  ELSE IF Huge /\ Ev.ws[1] # Capped(SumObs(Ev.L)) THEN Bad("width of the line")
  ELSE Ok

RowTexts == [r \in 1..Len(lay.rows) |-> TextOf(lay.rows[r].segs)]
StrVerdict ==
  IF Ev.r = "ok"
  THEN IF Unknown \/ \E r \in 1..Len(lay.rows) : BadRow(r) THEN "a whole print succeeded whose layout has an error"
       ELSE IF Huge THEN IF Len(Ev.lines) = Len(RowTexts) THEN "" ELSE "whole print: wrong number of lines"
       ELSE IF Ev.lines # RowTexts THEN "whole print: expected " \o ToString(RowTexts)
       ELSE ""
  ELSE IF Ev.fired \/ OkErr(Ev.err) \/ (Ev.err.k = "TextAfterEndOfLine" /\ (Unknown \/ \E r \in 1..Len(lay.rows) : EolRow(r)))
       THEN "" ELSE "whole print: unexpected error " \o Ev.err.k

(* the testing oracle, judged for documents that print without error *)
OracleVerdict ==
  IF Unknown \/ (\E r \in 1..Len(lay.rows) : BadRow(r)) \/ errs # {} THEN ""
  ELSE IF Ev.r # "ok" THEN "the oracle panicked: " \o Ev.msg
  ELSE IF Ev.lines # RowTexts THEN "the oracle prints something else than " \o ToString(RowTexts)
  ELSE ""

(* a column beyond the largest representable one cannot be told from it *)
PanicsOnly == Huge /\ C.W = 65535

(* a single node with a validated notation without folds cannot run into text after an end of line *)
SingleSafe == Mode = "L07" /\ Len(C.D) = 1 /\ \A x \in 1..Len(C.N) : C.N[x].k # "fold"

(* One event: the verdict, and the sessions afterwards. *)
Judge ==
  IF Ev.e = "run" THEN [v |-> "", ss |-> << >>]
  ELSE IF Ev.e = "oracle" THEN [v |-> OracleVerdict, ss |-> ss]
  ELSE IF Ev.r = "panic" THEN [v |-> "panic: " \o Ev.msg, ss |-> ss]
  ELSE IF "post" \in DOMAIN Ev /\ Ev.post # "ended" THEN [v |-> "after the error: " \o Ev.post, ss |-> ss]
  ELSE IF PanicsOnly THEN [v |-> "", ss |-> ss]
  ELSE IF SingleSafe /\ Ev.r = "err" /\ Ev.err.k = "TextAfterEndOfLine"
  THEN [v |-> "text after an end of line within a validated notation", ss |-> ss]
  ELSE
  LET fv == IF Faulty THEN FaultVerdict ELSE "" IN
  IF fv # "" THEN [v |-> fv, ss |-> ss]
  ELSE CASE Ev.e = "open" -> LET j == OpenVerdict IN [v |-> j.v, ss |-> (Ev.sid :> j.s) @@ ss]
         [] Ev.e \in {"up", "down"} ->
              LET j == LineVerdict(ss[Ev.sid], Ev.e = "up") IN [v |-> j.v, ss |-> (Ev.sid :> j.s) @@ ss]
         [] Ev.e = "str" -> [v |-> StrVerdict, ss |-> ss]
         [] OTHER -> [v |-> "", ss |-> ss]

-----------------------------------------------------------------------------
Init == /\ tid \in 1..Len(Cases)
        /\ l = 0 /\ lay = <<>> /\ errs = {} /\ ss = << >> /\ verdict = ""

ComputeLayout ==
  /\ l = 0
  /\ \E CC \in {C} : \E x \in {LayoutErrs(CC, CC.W, CC.root)} :   \* (TLC evaluates this once; a LET here, twice)
      lay' = x.lay /\ errs' = x.errs
  /\ l' = 1
  /\ UNCHANGED <<tid, ss, verdict>>

Consume ==
  /\ l > 0 /\ l <= Len(C.ev) /\ verdict = ""
  /\ \E j \in {Judge} :
     /\ verdict' = j.v
     /\ ss' = j.ss
     /\ IF j.v = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, j.v>>)
  /\ l' = l + 1
  /\ UNCHANGED <<tid, lay, errs>>

(* every behaviour must get here: a behaviour that is stuck earlier is a deadlock *)
Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars

Next == ComputeLayout \/ Consume \/ Done
Spec == Init /\ [][Next]_vars

Accepted == verdict = ""
(* what TLC shows of a rejected behaviour *)
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
