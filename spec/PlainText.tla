----------------------------- MODULE PlainText ------------------------------
(***************************************************************************)
(* The plain-text window: a machine whose state is rows of cells.  A cell  *)
(* holds a character, or "" for the second half of a full-width one.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Rep(_, _)
Rep(x, n) == IF n <= 0 THEN <<>> ELSE IF n = 1 THEN <<x>> ELSE LET h == Rep(x, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN <<x>> ELSE <<>>)

PadTo(s, n, x) == IF Len(s) >= n THEN s ELSE s \o Rep(x, n - Len(s))

(* display ch at (row, col), both counted from 0 *)
Display(rows, ch, row, col, full) ==
  LET grown == PadTo(rows, row + 1, <<>>)
      line == PadTo(grown[row + 1], col + (IF full THEN 2 ELSE 1), " ")
      one == [line EXCEPT ![col + 1] = ch]
  IN [grown EXCEPT ![row + 1] = IF full THEN [one EXCEPT ![col + 2] = ""] ELSE one]

RECURSIVE Join(_)
Join(cells) ==
  IF cells = <<>> THEN ""
  ELSE IF Len(cells) = 1 THEN cells[1]
  ELSE LET m == Len(cells) \div 2 IN Join(SubSeq(cells, 1, m)) \o Join(SubSeq(cells, m + 1, Len(cells)))
Lines(rows) == [r \in 1..Len(rows) |-> Join(rows[r])]
=============================================================================
