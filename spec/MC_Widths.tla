----------------------------- MODULE MC_Widths -----------------------------
(* The layout rule of Layout keeps lines within the width, for all small documents (L12). *)
EXTENDS Widths, SmallDocs, IOUtils
Fam == IOEnv.FAM
SIZE == CASE IOEnv.SIZE = "4" -> 4 [] IOEnv.SIZE = "5" -> 5 [] IOEnv.SIZE = "6" -> 6 [] OTHER -> 7
VARIABLES c, W, ok, rows
vars == <<c, W, ok, rows>>
Init == /\ \E n \in 1..SIZE : c \in Docs(Fam, n)
        /\ W = 0 /\ ok = Obeys(c) /\ rows = IF ok THEN LayoutOf(c, 0, "").rows ELSE <<>>
Next == W < 7 /\ ok /\ W' = W + 1 /\ rows' = LayoutOf(c, W', "").rows /\ UNCHANGED <<c, ok>>
Spec == Init /\ [][Next]_vars
Clean == \A i \in 1..Len(rows) : rows[i].bad = NoErr
WithinWidth == ok /\ MustFit(c, RowsOf(c, 2), W) => Clean /\ \A i \in 1..Len(rows) : rows[i].w <= W
OneLine == ok /\ MustBeOneLine(c, RowsOf(c, 1), W) => Clean /\ Len(rows) = 1 /\ rows[1].w = RowsOf(c, 1)[1]
=============================================================================
