---------------------------- MODULE MC_PlainText ----------------------------
(***************************************************************************)
(* All short sequences of displays: the machine's text shows every         *)
(* character displayed, at its column, and nothing else.  The sequences    *)
(* are exported, to be made on the real window.                            *)
(***************************************************************************)
EXTENDS PlainText, Json, IOUtils

Big == IOEnv.BIG = "1"
Export == IOEnv.EXPORT = "1"
Depth == IF Big THEN 4 ELSE 3
Rows == 0..1
Cols == 0..3
VARIABLES rows, hist
Init == rows = <<>> /\ hist = <<>>

W(full) == IF full THEN 2 ELSE 1
(* a character may be displayed over others if it covers them completely   *)
Allowed(row, col, full) ==
  \A i \in 1..Len(hist) : LET x == hist[i] IN
    IF x.k = "f" THEN TRUE
    ELSE \/ x.row # row
         \/ col <= x.col /\ x.col + W(x.full) <= col + W(full)
         \/ x.col + W(x.full) <= col \/ col + W(full) <= x.col
Put(row, col, full) ==
  /\ Len(hist) < Depth /\ Allowed(row, col, full)
  /\ LET ch == IF full THEN "`" ELSE SubSeq("abcdef", Len(hist) + 1, Len(hist) + 1) IN
     /\ rows' = Display(rows, ch, row, col, full)
     /\ hist' = Append(hist, [k |-> "c", ch |-> ch, row |-> row, col |-> col, full |-> full])
Focus == /\ Len(hist) < Depth /\ hist' = Append(hist, [k |-> "f", row |-> Len(hist), col |-> 2]) /\ UNCHANGED rows
Next ==
  /\ \/ \E row \in Rows, col \in Cols, full \in BOOLEAN : Put(row, col, full)
     \/ Focus
  /\ IF Export /\ Len(hist') = Depth THEN PrintT("EXPORT " \o ToJson(hist')) ELSE TRUE

-----------------------------------------------------------------------------
(* the last character displayed over a cell *)
Over(row, col) == {i \in 1..Len(hist) : /\ hist[i].k = "c" /\ hist[i].row = row
                                        /\ hist[i].col <= col /\ col < hist[i].col + W(hist[i].full)}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
End(row) == LET E == {hist[i].col + W(hist[i].full) : i \in {j \in 1..Len(hist) : hist[j].k = "c" /\ hist[j].row = row}}
            IN IF E = {} THEN 0 ELSE CHOOSE m \in E : \A x \in E : x <= m
RECURSIVE RowText(_, _, _)
RowText(row, from, to) ==
  IF from >= to THEN ""
  ELSE (IF Over(row, from) = {} THEN " "
        ELSE LET x == hist[Last(Over(row, from))] IN IF x.col = from THEN x.ch ELSE "")
       \o RowText(row, from + 1, to)
Touched == {hist[i].row : i \in {j \in 1..Len(hist) : hist[j].k = "c"}}
Shows ==
  /\ \A r \in 1..Len(rows) : Lines(rows)[r] = RowText(r - 1, 0, End(r - 1))
  /\ Len(rows) = IF Touched = {} THEN 0 ELSE 1 + CHOOSE m \in Touched : \A x \in Touched : x <= m
=============================================================================
