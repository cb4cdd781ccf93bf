----------------------------- MODULE PaneTrace ------------------------------
(***************************************************************************)
(* Trace validation of displaying panes.  A case is a pane layout with its *)
(* documents; each event is one call of display_pane: the calls it made on *)
(* the window, in order (neighbouring equal characters merged into runs),  *)
(* and its result.  The window is a machine: cells are painted, focus      *)
(* points reported; each window call must be allowed by what the layout    *)
(* shows (module Panes) and by what has been painted before.               *)
(***************************************************************************)
EXTENDS Panes, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE

VARIABLES tid, l, j, exp, got, foc, verdict
vars == <<tid, l, j, exp, got, foc, verdict>>
C == Cases[tid]
Ev == C.ev[l]
Call == Ev.calls[j]

(* what a mode judges *)
Geometry == Mode \in {"P01", "P02", "P04", "P07", "L13"}   \* what is painted where
Chars(x) == CASE Mode \in {"P01", "P04", "P07", "L13"} -> TRUE
              [] Mode = "P02" -> x.k = "fill"
              [] Mode = "P03" -> x.k = "doc"
              [] OTHER -> FALSE
Styles == Mode = "P06"
Foci == Mode \in {"P05", "P07"}

Max2(a, b) == IF a < b THEN b ELSE a
(* the overlap of an observed run o with an expected run x of its row *)
OvFrom(o, x) == Max2(o.col, x.col)
OvTo(o, x) == Min2(o.col + Cols(o), x.col + Cols(x))
Meets(o, x) == OvFrom(o, x) < OvTo(o, x)
RECURSIVE Overlaps(_, _)
Overlaps(o, xs) ==
  IF xs = <<>> THEN 0
  ELSE (IF Meets(o, Head(xs)) THEN OvTo(o, Head(xs)) - OvFrom(o, Head(xs)) ELSE 0) + Overlaps(o, Tail(xs))

(* whole characters on both sides of the borders of x? *)
Aligned(o, x) ==
  /\ (OvFrom(o, x) - o.col) % o.w = 0
  /\ (OvTo(o, x) - o.col) % o.w = 0
SameChars(o, x) ==
  /\ o.ch = x.ch /\ o.w = x.w
  /\ (OvFrom(o, x) - x.col) % x.w = 0 /\ (OvFrom(o, x) - o.col) % o.w = 0

At2(o) == " at row " \o ToString(o.row) \o ", column " \o ToString(o.col)
PaintVerdict(o) ==
  IF Geometry /\ (o.row < 0 \/ o.row >= C.h \/ o.col < 0 \/ o.col + Cols(o) > C.w) THEN "painted outside the window" \o At2(o)
  ELSE LET xs == SelectSeq((IF o.row \in DOMAIN exp.rows THEN exp.rows[o.row] ELSE <<>>) \o FreeRuns(exp.free, o.row), LAMBDA x : Meets(o, x)) IN
  IF Geometry /\ Overlaps(o, xs) # Cols(o) THEN "painted where no pane shows anything" \o At2(o)
  ELSE IF Geometry /\ \E i \in 1..Len(xs) : ~Aligned(o, xs[i]) THEN "a wide character is painted across a border" \o At2(o)
  ELSE IF Geometry /\ \E g \in got : g.row = o.row /\ Meets(o, g) THEN "painted twice" \o At2(o)
  ELSE IF \E i \in 1..Len(xs) : Chars(xs[i]) /\ ~SameChars(o, xs[i])
       THEN LET i == CHOOSE i \in 1..Len(xs) : Chars(xs[i]) /\ ~SameChars(o, xs[i])
            IN "expected '" \o xs[i].ch \o "', painted '" \o o.ch \o "'" \o At2([o EXCEPT !.col = OvFrom(o, xs[i])])
  ELSE IF Styles /\ \E i \in 1..Len(xs) : SameChars(o, xs[i]) /\ o.st # xs[i].st
       THEN LET i == CHOOSE i \in 1..Len(xs) : SameChars(o, xs[i]) /\ o.st # xs[i].st
            IN "expected style " \o xs[i].st \o ", painted " \o o.st \o At2([o EXCEPT !.col = OvFrom(o, xs[i])])
  ELSE ""

Obs == Run("o", Call[2], Call[3], Call[4], Call[5], IF Call[6] THEN 2 ELSE 1, Call[7])

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

(* everything that has to be painted is *)
RECURSIVE NeedCols(_)
NeedCols(xs) == IF xs = <<>> THEN 0 ELSE (IF Head(xs).k # "none" /\ (Geometry \/ Chars(Head(xs))) THEN Cols(Head(xs)) ELSE 0) + NeedCols(Tail(xs))
RECURSIVE HaveCols(_, _)
HaveCols(gs, xs) ==
  IF gs = {} THEN 0
  ELSE LET g == CHOOSE g \in gs : TRUE
       IN Overlaps(g, SelectSeq(xs, LAMBDA x : x.k # "none" /\ (Geometry \/ Chars(x)))) + HaveCols(gs \ {g}, xs)
Missing == {r \in DOMAIN exp.rows : HaveCols({g \in got : g.row = r}, exp.rows[r]) < NeedCols(exp.rows[r])}

Mismatch == {"TextNotationOnTextlessDoc", "ChildIndexOutOfBounds", "ChildNotationOnChildlessDoc",
             "CheckPosChildIndexOutOfBounds", "CheckPosChildOnChildlessDoc",
             "CountNotationOnChildlessDoc", "NumChildrenChanged"}
OkErr(e) ==
  \/ \E x \in exp.errs : x.k = e.k /\ x.i = e.i /\ x.n = e.n
  \/ (\E x \in exp.errs : x.k = "FoldOnText") /\ e.k \in Mismatch

(* documents (module MC_Panes, KIND "bad") where only the lines that are   *)
(* shown can run into an error: the others are nodes of their own          *)
Exact == "exact" \in DOMAIN C /\ C.exact

ResultVerdict ==
  IF Ev.r = "panic" THEN "panic: " \o Ev.msg
  ELSE IF Mode \notin {"P07", "L11"} /\ (Ev.r # "ok" \/ exp.forced) THEN ""
  ELSE IF Ev.fired = "win"
  THEN IF Ev.r # "win" \/ Ev.en # Ev.at THEN "the window's error did not come out: " \o Ev.r
       ELSE IF Ev.after # 0 THEN "the window was called again after its error" ELSE ""
  ELSE IF Ev.fired = "doc"
  THEN IF Ev.r # "print" \/ Ev.err.k # "PrettyDoc" \/ Ev.err.i # Ev.at THEN "the document's error did not come out: " \o Ev.r
       ELSE IF Ev.after # 0 THEN "the window or document was called again after the document's error" ELSE ""
  ELSE IF Ev.r = "win" THEN "a window error although no call failed"
  ELSE IF Ev.r = "misuse" THEN IF Misuse \in exp.errs THEN "" ELSE "unexpected invalid-use-of-dynamic error"
  ELSE IF Ev.r = "print"
  THEN IF ~OkErr(Ev.err) THEN "unexpected printing error " \o Ev.err.k
       ELSE IF Exact /\ ~exp.forced THEN "an error in a line that is not shown came out: " \o Ev.err.k ELSE ""
  ELSE IF exp.forced THEN "expected an error"
  ELSE IF Missing # {} THEN "not painted completely: row " \o ToString(CHOOSE r \in Missing : TRUE)
  ELSE IF Foci /\ ~SameBag(foc, exp.foc) THEN "focus points: expected " \o ToString(exp.foc) \o ", reported " \o ToString(foc)
  ELSE ""

FocusVerdict(f) == IF Foci /\ ~\E i \in 1..Len(exp.foc) : exp.foc[i] = f THEN "unexpected focus point " \o ToString(f) ELSE ""

-----------------------------------------------------------------------------
Init == tid \in 1..Len(Cases) /\ l = 0 /\ j = 1 /\ exp = <<>> /\ got = {} /\ foc = <<>> /\ verdict = ""

Compute ==
  /\ l = 0
  /\ \E CC \in {C} : \E e \in {Expected(CC)} :   \* (TLC evaluates this once; a LET here, many times)
     LET R == {e.runs[i].row : i \in 1..Len(e.runs)}
     IN exp' = [rows |-> [r \in R |-> SelectSeq(e.runs, LAMBDA x : x.row = r)], free |-> e.free, foc |-> e.foc, errs |-> e.errs,
                forced |-> e.forced, unk |-> e.unk]
  /\ l' = 1
  /\ UNCHANGED <<tid, j, got, foc, verdict>>

Reject(v) == IF v = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, v>>)

WindowCall ==
  /\ l > 0 /\ l <= Len(C.ev) /\ verdict = "" /\ j <= Len(Ev.calls)
  /\ \E v \in {IF exp.unk THEN "" ELSE IF Call[1] = "c" THEN PaintVerdict(Obs) ELSE FocusVerdict(<<Call[2], Call[3]>>)} :
        verdict' = v /\ Reject(v)
  /\ IF Call[1] = "c" THEN got' = got \cup {Obs} /\ foc' = foc
     ELSE got' = got /\ foc' = Append(foc, <<Call[2], Call[3]>>)
  /\ j' = j + 1
  /\ UNCHANGED <<tid, l, exp>>

Return ==
  /\ l > 0 /\ l <= Len(C.ev) /\ verdict = "" /\ j > Len(Ev.calls)
  /\ \E v \in {IF exp.unk THEN "" ELSE ResultVerdict} : verdict' = v /\ Reject(v)
  /\ l' = l + 1 /\ j' = 1 /\ got' = {} /\ foc' = <<>>
  /\ UNCHANGED <<tid, exp>>

Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars
Next == Compute \/ WindowCall \/ Return \/ Done
Spec == Init /\ [][Next]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, call |-> j, verdict |-> verdict]
=============================================================================
