------------------------------- MODULE Panes --------------------------------
(***************************************************************************)
(* What displaying a pane layout does to a window.                         *)
(*                                                                         *)
(* A case C is a record with                                               *)
(*   C.w, C.h  : the window's size                                         *)
(*   C.style   : the style given for the whole window                      *)
(*   C.P, C.p0 : table of panes, index of the root pane                    *)
(*   C.docs    : documents with their printing options                     *)
(*   C.wide    : the characters that take two columns                      *)
(* A pane is horz(s) vert(s) doc(d) fill(ch) or style(st,p); s is a        *)
(* sequence of subpanes [z: "fix"|"dyn"|"prop", n, p]; d is an index into  *)
(* C.docs, 0 if the application has no document for the label.             *)
(* A document is a case of module Layout (N, D) with path, tgt, pos (the   *)
(* focus), fh and fd (focus height fh/fd), ws, wn (width strategy), sf (asked  *)
(* to report its focus?).                                                  *)
(*                                                                         *)
(* Painting is described by runs: n copies of character ch (each w columns *)
(* wide) in style st from (row, col) on.                                   *)
(***************************************************************************)
EXTENDS Layout

Min2(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Dividing `avail` cells among subpanes: fixed sizes first, in order,     *)
(* while space lasts; then dynamic ones (dyn[i], already measured); then   *)
(* the rest in proportion to the weights: everyone the floor of its exact  *)
(* share, and the leftover cells one each to the largest fractions,        *)
(* leftmost first.                                                         *)
(* (a sequence, evaluated once) *)
Once(s) == s \o <<>>
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

RECURSIVE GiveFixed(_, _)
GiveFixed(avail, sizes) ==
  IF sizes = <<>> THEN <<>>
  ELSE LET g == IF sizes[1].z = "fix" THEN Min2(avail, sizes[1].n) ELSE 0
       IN <<g>> \o GiveFixed(avail - g, Tail(sizes))

GiveProp(avail, wt) ==
  LET total == SumSeq(wt)
      base == Once([i \in 1..Len(wt) |-> (avail * wt[i]) \div total])
      frac == Once([i \in 1..Len(wt) |-> (avail * wt[i]) % total])
      rest == avail - SumSeq(base)
      rank(i) == Cardinality({j \in 1..Len(wt) : frac[j] > frac[i] \/ (frac[j] = frac[i] /\ j < i)})
  IN IF total = 0 THEN [i \in 1..Len(wt) |-> 0]
     ELSE [i \in 1..Len(wt) |-> base[i] + (IF rank(i) < rest THEN 1 ELSE 0)]

Divide(avail, sizes, dyn) ==
  LET f == GiveFixed(avail, sizes)
      wt == Once([i \in 1..Len(sizes) |-> IF sizes[i].z = "prop" THEN sizes[i].n ELSE 0])
      pr == Once(GiveProp(avail - SumSeq(f) - SumSeq(dyn), wt))
  IN [i \in 1..Len(sizes) |-> CASE sizes[i].z = "fix" -> f[i] [] sizes[i].z = "dyn" -> dyn[i] [] OTHER -> pr[i]]

-----------------------------------------------------------------------------
(* Text as runs. A string "<<c*n>>" stands for n copies of c (its width is *)
(* given and saturates).                                                   *)
CW(C, ch) == IF \E i \in 1..Len(C.wide) : C.wide[i] = ch THEN 2 ELSE 1
Abbreviated(s) == Len(s) > 4 /\ SubSeq(s, 1, 2) = "<<"
Pieces1(C, seg) ==
  LET s == seg[1] IN
  IF Abbreviated(s) THEN LET ch == SubSeq(s, 3, 3) IN <<[ch |-> ch, w |-> CW(C, ch), n |-> (seg[2] + CW(C, ch) - 1) \div CW(C, ch), st |-> seg[3]]>>
  ELSE [i \in 1..Len(s) |-> [ch |-> SubSeq(s, i, i), w |-> CW(C, SubSeq(s, i, i)), n |-> 1, st |-> seg[3]]]
RECURSIVE Pieces(_, _)
Pieces(C, segs) == IF segs = <<>> THEN <<>> ELSE Pieces1(C, Head(segs)) \o Pieces(C, Tail(segs))

Run(k, row, col, n, ch, w, st) == [k |-> k, row |-> row, col |-> col, n |-> n, ch |-> ch, w |-> w, st |-> st]
Cols(r) == r.n * r.w

(* pieces from column c on, cut before the first character that does not   *)
(* fit before c1, and blanks after them                                    *)
RECURSIVE Fill1(_, _, _, _, _, _)
Fill1(k, ps, row, c, c1, st) ==
  IF c >= c1 THEN <<>>
  ELSE IF ps = <<>> THEN <<Run(k, row, c, c1 - c, " ", 1, st)>>
  ELSE LET p == Head(ps)
           n == Min2(p.n, (c1 - c) \div p.w)
           r == IF n = 0 THEN <<>> ELSE <<Run(k, row, c, n, p.ch, p.w, p.st)>>
       IN IF n < p.n THEN r \o Fill1(k, <<>>, row, c + n * p.w, c1, st)
          ELSE r \o Fill1(k, Tail(ps), row, c + n * p.w, c1, st)

RECURSIVE Concat(_, _, _)
(* f[a] \o ... \o f[b] *)
Concat(f, a, b) == IF a > b THEN <<>> ELSE f[a] \o Concat(f, a + 1, b)

-----------------------------------------------------------------------------
(* Printing a document in a space of w columns and h rows.                 *)
FocusRow(h, fh, fd) == (2 * (h - 1) * fh + fd) \div (2 * fd)    \* round((h-1) * fh/fd)
PrintWidth(doc, w) == CASE doc.ws = "full" -> w [] doc.ws = "fixed" -> doc.wn [] OTHER -> Min2(doc.wn, w)
RECURSIVE PieceCols(_)
PieceCols(ps) == IF ps = <<>> THEN 0 ELSE Head(ps).n * Head(ps).w + PieceCols(Tail(ps))
RECURSIVE SegCols(_, _)
SegCols(C, segs) ==
  IF segs = <<>> THEN 0
  ELSE (IF Abbreviated(Head(segs)[1]) THEN Head(segs)[2] ELSE PieceCols(Pieces1(C, Head(segs)))) + SegCols(C, Tail(segs))

Misuse == [k |-> "misuse", i |-> 0, n |-> 0]
NoDoc == [lines |-> <<>>, above |-> 0, frow |-> 0, fcol |-> -1, width |-> 0, errs |-> {}, forced |-> FALSE, unk |-> FALSE]

PrintDoc(C, doc, w, h, st) ==
  IF w = 0 \/ h = 0 THEN NoDoc
  ELSE
  LET lay == LayoutOf(doc, PrintWidth(doc, w), st)
      f == Focus(lay, doc.path, doc.tgt, doc.pos)
      frow == FocusRow(h, doc.fh, doc.fd)
      bads == {lay.rows[r].bad : r \in {x \in 1..Len(lay.rows) : lay.rows[x].bad # NoErr}}
      errs == bads \cup ErrSet(doc)
  IN
  IF lay.st = "unknown" THEN [NoDoc EXCEPT !.unk = TRUE]
  ELSE IF ~f.ok THEN [NoDoc EXCEPT !.errs = errs \cup {f.err}, !.forced = TRUE]
  ELSE
  LET above == Min2(frow, f.row - 1)
      below == Min2(h - 1 - frow, Len(lay.rows) - f.row)
      from == f.row - above
      shown == SubSeq(lay.rows, from, from + above + below)
      ws == {shown[i].w : i \in 1..Len(shown)}
  IN [lines |-> Once([i \in 1..Len(shown) |-> shown[i].segs]),
      above |-> above,
      frow |-> frow,
      fcol |-> IF doc.sf THEN SegCols(C, LeftOf(lay.rows[f.row], f)) ELSE -1,
      width |-> CHOOSE m \in ws : \A x \in ws : x <= m,
      errs |-> errs,
      forced |-> \E i \in 1..Len(shown) : shown[i].bad # NoErr,
      unk |-> FALSE]

-----------------------------------------------------------------------------
(* Rendering a pane. Result: runs; free (the areas of panes that have      *)
(* nothing to show: these may be left alone or blanked); foc (focus        *)
(* reports); errs: errors this may run into; forced: whether it must fail; *)
(* unk: the layout of some document is not specified.                      *)
Rect(r0, r1, c0, c1) == [r0 |-> r0, r1 |-> r1, c0 |-> c0, c1 |-> c1]
Nothing == [runs |-> <<>>, free |-> <<>>, foc |-> <<>>, errs |-> {}, forced |-> FALSE, unk |-> FALSE]
Join2(a, b) == [runs |-> a.runs \o b.runs, free |-> a.free \o b.free, foc |-> a.foc \o b.foc, errs |-> a.errs \cup b.errs,
                forced |-> a.forced \/ b.forced, unk |-> a.unk \/ b.unk]
RECURSIVE JoinAll(_)
JoinAll(s) == IF s = <<>> THEN Nothing ELSE Join2(Head(s), JoinAll(Tail(s)))

(* a printed document in a rectangle, its first line on row `top` of it *)
Place(C, k, pd, rect, top, st) ==
  LET H == rect.r1 - rect.r0
      rowRuns(r) == Fill1(k, IF r >= top /\ r < top + Len(pd.lines) THEN Pieces(C, pd.lines[r - top + 1]) ELSE <<>>,
                          rect.r0 + r, rect.c0, rect.c1, st)
      all == [r \in 1..H |-> rowRuns(r - 1)]
  IN [runs |-> IF pd.forced \/ pd.unk THEN <<>> ELSE Concat(all, 1, H), free |-> <<>>,
      foc |-> IF pd.fcol < 0 THEN <<>> ELSE <<<<rect.r0 + top + pd.above, Min2(65535, rect.c0 + pd.fcol)>>>>,
      errs |-> pd.errs, forced |-> pd.forced, unk |-> pd.unk]

(* a pane the application has no document for may be left alone or blanked *)
Blank(rect, st) ==
  [Nothing EXCEPT !.free = IF rect.r0 = rect.r1 \/ rect.c0 = rect.c1 THEN <<>> ELSE <<[rect |-> rect, st |-> st]>>]
(* its part of a row *)
RECURSIVE FreeRuns(_, _)
FreeRuns(fs, row) ==
  IF fs = <<>> THEN <<>>
  ELSE LET f == Head(fs).rect
       IN (IF row >= f.r0 /\ row < f.r1 THEN <<Run("none", row, f.c0, f.c1 - f.c0, " ", 1, Head(fs).st)>> ELSE <<>>) \o FreeRuns(Tail(fs), row)

RECURSIVE Unstyle(_, _, _)
(* the pane under style wrappers, with the style it gets *)
Unstyle(C, p, st) ==
  IF C.P[p].k = "style" THEN Unstyle(C, C.P[p].p, Comb(st, C.P[p].st)) ELSE [p |-> p, st |-> st]

(* measure the dynamic subpanes in order, within what is left *)
RECURSIVE Measure(_, _, _, _, _, _)
Measure(C, horz, subs, avail, other, st) ==
  IF subs = <<>> THEN <<>>
  ELSE IF subs[1].z # "dyn" THEN <<[size |-> 0, pd |-> NoDoc, st |-> st]>> \o Measure(C, horz, Tail(subs), avail, other, st)
  ELSE LET u == Unstyle(C, subs[1].p, st)
           isDoc == C.P[u.p].k = "doc"
           d == IF isDoc THEN C.P[u.p].d ELSE 0
           pd == IF ~isDoc THEN [NoDoc EXCEPT !.errs = {Misuse}, !.forced = TRUE]
                 ELSE IF d = 0 THEN NoDoc
                 ELSE IF horz THEN PrintDoc(C, C.docs[d], avail, other, u.st)
                 ELSE PrintDoc(C, C.docs[d], other, avail, u.st)
           size == IF horz THEN Min2(pd.width, avail) ELSE Len(pd.lines)
       IN <<[size |-> size, pd |-> pd, st |-> u.st]>> \o Measure(C, horz, Tail(subs), avail - size, other, st)

RECURSIVE Render(_, _, _, _)
Render(C, p, rect, st) ==
  LET x == C.P[p]
      W == rect.c1 - rect.c0
      H == rect.r1 - rect.r0
  IN
  CASE x.k = "fill" ->
         LET w == CW(C, x.ch)
             n == W \div w
             one(r) == (IF n = 0 THEN <<>> ELSE <<Run("fill", r, rect.c0, n, x.ch, w, st)>>)
                       \o (IF n * w = W THEN <<>> ELSE <<Run("fill", r, rect.c0 + n * w, 1, " ", 1, st)>>)
             all == [r \in 1..H |-> one(rect.r0 + r - 1)]
         IN [Nothing EXCEPT !.runs = Concat(all, 1, H)]
    [] x.k = "doc" ->
         IF x.d = 0 THEN Blank(rect, st)
         ELSE LET pd == PrintDoc(C, C.docs[x.d], W, H, st)
              IN Place(C, "doc", pd, rect, pd.frow - pd.above, st)
    [] x.k = "style" -> Render(C, x.p, rect, Comb(st, x.st))
    [] x.k \in {"horz", "vert"} ->
         LET horz == x.k = "horz"
             ext == IF horz THEN W ELSE H
             room == ext - SumSeq(GiveFixed(ext, x.s))
             ms == Measure(C, horz, x.s, room, IF horz THEN H ELSE W, st)
             sz == Once(Divide(ext, x.s, Once([i \in 1..Len(ms) |-> ms[i].size])))
             at(i) == SumSeq(SubSeq(sz, 1, i - 1))
             rc(i) == IF horz THEN Rect(rect.r0, rect.r1, rect.c0 + at(i), rect.c0 + at(i) + sz[i])
                      ELSE Rect(rect.r0 + at(i), rect.r0 + at(i) + sz[i], rect.c0, rect.c1)
             sub(i) == IF x.s[i].z = "dyn"
                       THEN Place(C, "dyn", ms[i].pd, rc(i), IF horz THEN ms[i].pd.frow - ms[i].pd.above ELSE 0, ms[i].st)
                       ELSE Render(C, x.s[i].p, rc(i), st)
             merr == UNION {ms[i].pd.errs : i \in 1..Len(ms)}
         IN IF \E i \in 1..Len(ms) : ms[i].pd.unk THEN [Nothing EXCEPT !.unk = TRUE, !.errs = merr]
            ELSE IF \E i \in 1..Len(ms) : ms[i].pd.forced THEN [Nothing EXCEPT !.errs = merr, !.forced = TRUE]
            ELSE JoinAll([i \in 1..Len(x.s) |-> sub(i)])

Expected(C) == Render(C, C.p0, Rect(0, C.h, 0, C.w), C.style)
=============================================================================
