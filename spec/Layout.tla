------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The reference layout: what a document looks like when it is printed at  *)
(* a width, defined by reading the document once from left to right.  This *)
(* is deliberately not how the code works (the code resolves blocks around *)
(* a focus, in both directions); every focused print must agree with it.   *)
(*                                                                         *)
(* The reader's state:                                                     *)
(*   work  what remains to be read, leftmost first: thunks and "close"     *)
(*         items that mark the end of a child's display                    *)
(*   row   segments <<string, width, style>> of the current row            *)
(*   col   columns used so far in the row                                  *)
(*   eol   has an end-of-line marker been read in this row?                *)
(*   bad   the error this row runs into ("" = none)                        *)
(*   rows  finished rows                                                   *)
(*   mk    places: where children open and close, marks, and own texts     *)
(*   st    "run", "done", or "unknown" (the rest of the layout depends on  *)
(*         something that is an error)                                     *)
(*   look  the errors reading runs into, or looking ahead can run into     *)
(*         (collected if cl is TRUE)                                       *)
(***************************************************************************)
EXTENDS PPNotation

NoErr == [k |-> "", i |-> 0, n |-> 0]

(* Does the current line, continued with the items of work, fit in rem     *)
(* columns up to the next newline (or the end), with no text after an      *)
(* end-of-line marker? Later choices are counted at their second option.   *)
(* Returns "yes", "no" or "err".                                           *)
RECURSIVE Fits(_, _, _, _)
Fits(C, rem, eol, work) ==
  IF work = <<>> THEN "yes"
  ELSE LET it == Head(work)
           rest == Tail(work)
       IN
       IF "close" \in DOMAIN it THEN Fits(C, rem, eol, rest)
       ELSE LET e == Eval(C, it) IN
         CASE e.k = "txt"   -> IF eol \/ e.w > rem THEN "no" ELSE Fits(C, rem - e.w, eol, rest)
           [] e.k = "cat"   -> Fits(C, rem, eol, <<e.a, e.b>> \o rest)
           [] e.k = "cho"   -> Fits(C, rem, eol, <<e.b>> \o rest)
           [] e.k = "child" -> Fits(C, rem, eol, <<e.t>> \o rest)
           [] e.k = "eol"   -> Fits(C, rem, TRUE, rest)
           [] e.k = "nl"    -> "yes"
           [] e.k = "err"   -> "err"
           [] OTHER         -> Fits(C, rem, eol, rest)

(* The errors looking ahead over the items of work can run into: those of  *)
(* everything up to the next newline (a line that turns out too long may   *)
(* have been looked at further), and of the items joined to what is before *)
(* the newline.                                                            *)
HeadErr(C, t) == LET e == Eval(C, t) IN IF e.k = "err" THEN {e.err} ELSE {}
RECURSIVE LookErrs(_, _, _)
LookErrs(C, acc, work) ==
  IF work = <<>> THEN acc
  ELSE LET it == Head(work)
           rest == Tail(work)
       IN
       IF "close" \in DOMAIN it THEN LookErrs(C, acc, rest)
       ELSE LET e == Eval(C, it) IN
         CASE e.k = "cat"   -> LookErrs(C, acc \cup HeadErr(C, e.a) \cup HeadErr(C, e.b), <<e.a, e.b>> \o rest)
           [] e.k = "cho"   -> LookErrs(C, acc, <<e.b>> \o rest)
           [] e.k = "child" -> LookErrs(C, acc, <<e.t>> \o rest)
           [] e.k = "nl"    -> acc
           [] e.k = "err"   -> LookErrs(C, acc \cup {e.err}, rest)
           [] OTHER         -> LookErrs(C, acc, rest)

RECURSIVE SumW(_)
SumW(segs) == IF segs = <<>> THEN 0 ELSE segs[1][2] + SumW(Tail(segs))

LInit(C, rootStyle, cl) ==
  [work |-> <<RootThunk(C, rootStyle)>>, row |-> <<>>, col |-> 0, eol |-> FALSE, bad |-> NoErr,
   rows |-> <<>>, mk |-> <<[k |-> "open", p |-> 0, d |-> 1, i |-> 0, o |-> 1, row |-> 1, seg |-> 0]>>,
   st |-> "run", cl |-> cl, look |-> {}]

Here(s) == [row |-> Len(s.rows) + 1, seg |-> Len(s.row)]
FinishRow(s) == Append(s.rows, [segs |-> s.row, w |-> s.col, bad |-> s.bad])

(* One reading step. *)
LStep(C, W, s) ==
  IF s.work = <<>> THEN [s EXCEPT !.rows = FinishRow(s), !.st = "done"]
  ELSE
  LET it == Head(s.work)
      rest == Tail(s.work)
      h == Here(s)
  IN
  IF "close" \in DOMAIN it
  THEN [s EXCEPT !.work = rest,
                 !.mk = Append(@, [k |-> "close", p |-> 0, d |-> 0, i |-> 0, o |-> it.close, row |-> h.row, seg |-> h.seg])]
  ELSE
  LET e == Eval(C, it) IN
  CASE e.k = "txt" ->
         IF s.eol
         THEN [s EXCEPT !.work = rest,
                        !.bad = IF @ = NoErr THEN [k |-> "TextAfterEndOfLine", i |-> 0, n |-> 0] ELSE @]
         ELSE [s EXCEPT !.work = rest, !.row = Append(@, <<e.s, e.w, e.st>>), !.col = @ + e.w,
                        !.mk = IF e.own
                               THEN Append(@, [k |-> "text", p |-> 0, d |-> e.d, i |-> 0, o |-> 0, row |-> h.row, seg |-> h.seg])
                               ELSE @]
    [] e.k = "cat" -> [s EXCEPT !.work = <<e.a, e.b>> \o rest]
    [] e.k = "nl"  -> [s EXCEPT !.work = rest, !.rows = FinishRow(s), !.row = e.ind, !.col = SumW(e.ind),
                                !.eol = FALSE, !.bad = NoErr]
    [] e.k = "child" ->
         LET o == Len(s.mk) + 1 IN
         [s EXCEPT !.work = <<e.t, [close |-> o]>> \o rest,
                   !.mk = Append(@, [k |-> "open", p |-> e.p, d |-> e.t.d, i |-> e.i, o |-> o, row |-> h.row, seg |-> h.seg])]
    [] e.k = "cho" ->
         IF s.bad # NoErr THEN [s EXCEPT !.rows = FinishRow(s), !.st = "unknown"]
         ELSE LET f == IF s.col > W THEN "no" ELSE Fits(C, W - s.col, s.eol, <<e.a>> \o rest) IN
              LET look == IF s.cl THEN s.look \cup LookErrs(C, {}, <<e.a>> \o rest) ELSE {} IN
              (CASE f = "yes" -> [s EXCEPT !.work = <<e.a>> \o rest, !.look = look]
                [] f = "no"  -> [s EXCEPT !.work = <<e.b>> \o rest, !.look = look]
                [] f = "err" -> [s EXCEPT !.rows = Append(@, [segs |-> s.row, w |-> s.col, bad |-> [k |-> "any", i |-> 0, n |-> 0]]),
                                          !.st = "unknown"])
    [] e.k = "mark" -> [s EXCEPT !.work = rest,
                          !.mk = Append(@, [k |-> "mark", p |-> 0, d |-> e.d, i |-> 0, o |-> 0, row |-> h.row, seg |-> h.seg])]
    [] e.k = "eol"  -> [s EXCEPT !.work = rest, !.eol = TRUE]
    [] e.k = "empty" -> [s EXCEPT !.work = rest]
    [] e.k = "err"  -> [s EXCEPT !.work = rest, !.bad = IF @ = NoErr THEN e.err ELSE @, !.look = @ \cup {e.err}]

RECURSIVE LRun(_, _, _)
LRun(C, W, s) == IF s.st # "run" THEN s ELSE LRun(C, W, LStep(C, W, s))

LayoutOf(C, W, rootStyle) ==
  LET s == LRun(C, W, LInit(C, rootStyle, FALSE)) IN [rows |-> s.rows, mk |-> s.mk, st |-> s.st]
(* ... and the errors that printing the document can run into at this width *)
LayoutErrs(C, W, rootStyle) ==
  LET errs == ErrSet(C)
      s == LRun(C, W, LInit(C, rootStyle, errs # {}))
  IN [lay |-> [rows |-> s.rows, mk |-> s.mk, st |-> s.st],
      errs |-> IF s.st = "unknown" THEN errs ELSE s.look]

-----------------------------------------------------------------------------
(* Where a focus request lands: [ok, row, seg, off] (off: characters into  *)
(* the seg'th next segment), or [ok |-> FALSE, err].                       *)

(* first index m >= from of mk with P(mk[m]), 0 if none, looking up to `to` *)
FirstFrom(mk, from, to, P(_)) ==
  LET S == {m \in from..to : P(mk[m])}
  IN  IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : m <= x

CloseOf(mk, m) ==
  LET IsClose(x) == x.k = "close" /\ x.o = mk[m].o
      j == FirstFrom(mk, m, Len(mk), IsClose)
  IN IF j = 0 THEN Len(mk) ELSE j

RECURSIVE Walk(_, _, _)
(* follow the path from the place m of a node; result [m, bad index or -1] *)
Walk(lay, m, path) ==
  IF path = <<>> THEN [m |-> m, bad |-> -1]
  ELSE LET d == lay.mk[m].d
           Is(x) == x.k = "open" /\ x.p = d /\ x.i = path[1]
           j == FirstFrom(lay.mk, m + 1, CloseOf(lay.mk, m), Is)
       IN IF j = 0 THEN [m |-> m, bad |-> path[1]] ELSE Walk(lay, j, Tail(path))

At(x, off) == [ok |-> TRUE, row |-> x.row, seg |-> x.seg, off |-> off]
Fail(k, i) == [ok |-> FALSE, err |-> [k |-> k, i |-> i, n |-> 0]]

Focus(lay, path, tgt, pos) ==
  LET w == Walk(lay, 1, path) IN
  IF w.bad >= 0 THEN Fail("InvalidPath", w.bad)
  ELSE
  LET x == lay.mk[w.m]
      Mark(y) == y.k = "mark" /\ y.d = x.d
      Own(y) == y.k = "text" /\ y.d = x.d
  IN
  CASE tgt = "start" -> At(x, 0)
    [] tgt = "end" ->
         IF x.o = 1 /\ lay.st = "unknown" THEN Fail("unknown", 0)
         ELSE IF x.o = 1
         THEN [ok |-> TRUE, row |-> Len(lay.rows), seg |-> Len(lay.rows[Len(lay.rows)].segs), off |-> 0]
         ELSE LET Cl(y) == y.k = "close" /\ y.o = x.o
                  j == FirstFrom(lay.mk, w.m, Len(lay.mk), Cl)
              IN IF j = 0 THEN Fail("unknown", 0) ELSE At(lay.mk[j], 0)
    [] tgt = "mark" ->
         LET j == FirstFrom(lay.mk, w.m, Len(lay.mk), Mark)
         IN IF j = 0 THEN Fail("MissingFocusMark", 0) ELSE At(lay.mk[j], 0)
    [] tgt = "text" ->
         LET j == FirstFrom(lay.mk, w.m, Len(lay.mk), Own)
         IN IF j = 0 THEN Fail("MissingText", 0) ELSE At(lay.mk[j], pos)

-----------------------------------------------------------------------------
(* Views of rows. *)
RECURSIVE TextOf(_)
TextOf(segs) == IF segs = <<>> THEN "" ELSE segs[1][1] \o TextOf(Tail(segs))

(* merge neighbouring pieces of the same style, drop empty ones *)
RECURSIVE NormAcc(_, _)
NormAcc(acc, segs) ==
  IF segs = <<>> THEN acc
  ELSE LET x == Head(segs) IN
       IF x[1] = "" THEN NormAcc(acc, Tail(segs))
       ELSE IF acc # <<>> /\ acc[Len(acc)][2] = x[3]
       THEN NormAcc([acc EXCEPT ![Len(acc)] = <<@[1] \o x[1], x[3]>>], Tail(segs))
       ELSE NormAcc(Append(acc, <<x[1], x[3]>>), Tail(segs))
Norm(segs) == NormAcc(<<>>, segs)

(* the segments left and right of a focus in a row *)
LeftOf(row, f) ==
  IF f.off = 0 THEN SubSeq(row.segs, 1, f.seg)
  ELSE LET x == row.segs[f.seg + 1] IN
       Append(SubSeq(row.segs, 1, f.seg), <<SubSeq(x[1], 1, IF f.off > Len(x[1]) THEN Len(x[1]) ELSE f.off), x[2], x[3]>>)
RightOf(row, f) ==
  IF f.off = 0 THEN SubSeq(row.segs, f.seg + 1, Len(row.segs))
  ELSE LET x == row.segs[f.seg + 1] IN
       <<<<SubSeq(x[1], (IF f.off > Len(x[1]) THEN Len(x[1]) ELSE f.off) + 1, Len(x[1])), x[2], x[3]>>>>
         \o SubSeq(row.segs, f.seg + 2, Len(row.segs))
=============================================================================
