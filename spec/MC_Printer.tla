----------------------------- MODULE MC_Printer -----------------------------
(***************************************************************************)
(* The lazy block machine (Printer) refines the reader machine (Layout):   *)
(* for every small document, width and focus request, and every order of   *)
(* asking for lines above and below, the focused line and the requested    *)
(* lines are rows of the layout, split where Focus says.                   *)
(***************************************************************************)
EXTENDS Printer, SmallDocs, Json, IOUtils

Fam == IOEnv.FAM
SIZE == CASE IOEnv.SIZE = "3" -> 3 [] IOEnv.SIZE = "4" -> 4 [] IOEnv.SIZE = "5" -> 5 [] IOEnv.SIZE = "6" -> 6 [] OTHER -> 7
Widths == CASE IOEnv.WIDTHS = "all" -> 0..6 [] IOEnv.WIDTHS = "some" -> (IF IOEnv.FAM = "eol0" THEN {1, 2, 4} ELSE {1, 3, 4}) [] OTHER -> {3}
Export == IOEnv.EXPORT = "1"

VARIABLES c, W, req, lay, s, ph
vars == <<c, W, req, lay, s, ph>>

Requests ==
  {[path |-> p, tgt |-> t, pos |-> 0] : p \in {<<>>, <<0>>, <<1>>}, t \in {"start", "end"}}
  \cup {[path |-> <<0>>, tgt |-> "text", pos |-> 1]}
  \cup (IF Fam = "mark" THEN {[path |-> <<>>, tgt |-> "mark", pos |-> 0]} ELSE {})

Init == /\ \E n \in 1..SIZE : c \in Docs(Fam, n)
        /\ W \in Widths
        /\ req = [path |-> <<>>, tgt |-> "", pos |-> 0] /\ lay = <<>> /\ s = <<>> /\ ph = "new"
        /\ IF Export THEN PrintT("EXPORT " \o ToJson([N |-> c.N, D |-> c.D, W |-> W])) ELSE TRUE

Layouted == ph = "new" /\ lay' = LayoutOf(c, W, "") /\ ph' = "laid" /\ UNCHANGED <<c, W, req, s>>
Open(r) ==
  /\ ph = "laid" /\ ~Export
  /\ req' = r
  /\ \E x \in {POpen(c, W, "", r.path, r.tgt, r.pos)} : \E f \in {Focus(lay, r.path, r.tgt, r.pos)} :
        s' = [up |-> [x.p EXCEPT !.next = <<>>], dn |-> [x.p EXCEPT !.prev = <<>>],
              ur |-> IF f.ok THEN f.row - 1 ELSE 0, dr |-> IF f.ok THEN f.row + 1 ELSE 0,
              row |-> IF f.ok THEN f.row ELSE 0, line |-> x.line, left |-> x.left,
              f |-> f, last |-> "open", none |-> FALSE]
  /\ ph' = "open" /\ UNCHANGED <<c, W, lay>>
Live == ph = "open" /\ s.up.err = NoErr /\ s.dn.err = NoErr /\ s.f.ok
Up ==
  /\ Live /\ s.ur >= 0
  /\ \E x \in {PrintPrev(c, W, s.up)} :
     s' = [s EXCEPT !.up = x.p, !.line = x.line, !.none = x.none, !.row = s.ur, !.ur = @ - 1, !.last = "up"]
  /\ UNCHANGED <<c, W, req, lay, ph>>
Down ==
  /\ Live /\ s.dr <= Len(lay.rows) + 1
  /\ \E x \in {PrintNext(c, W, s.dn)} :
     s' = [s EXCEPT !.dn = x.p, !.line = x.line, !.none = x.none, !.row = s.dr, !.dr = @ + 1, !.last = "down"]
  /\ UNCHANGED <<c, W, req, lay, ph>>
Next == Layouted \/ Up \/ Down \/ \E r \in Requests : Open(r)
Stay == FALSE /\ UNCHANGED vars   \* for exporting the documents only
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Clean == lay.st = "done" /\ \A r \in 1..Len(lay.rows) : lay.rows[r].bad = NoErr
PErr == IF s.up.err # NoErr THEN s.up.err ELSE s.dn.err

Refines ==
  ph = "open" =>
    IF PErr # NoErr
    THEN \* an error: either the one the layout's row has, or the focus does not exist
         \/ ~s.f.ok /\ PErr.k = s.f.err.k /\ PErr.i = s.f.err.i
         \/ ~Clean
    ELSE IF ~s.f.ok THEN ~Clean
    ELSE IF s.row < 1 \/ s.row > Len(lay.rows) THEN s.none
    ELSE /\ ~s.none
         /\ lay.rows[s.row].bad = NoErr
         /\ TextOf(s.line) = TextOf(lay.rows[s.row].segs)
         /\ s.last = "open" => TextOf(s.left) = TextOf(LeftOf(lay.rows[s.row], s.f))

(* nodes looked into are bounded: what never was displayed or weighed stays closed *)
Bounded == ph = "open" => s.up.open \cup s.dn.open \subseteq 1..Len(c.D)
=============================================================================
