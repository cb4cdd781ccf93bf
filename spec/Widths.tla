------------------------------ MODULE Widths ------------------------------
(***************************************************************************)
(* When lines must stay within the width (L12).                            *)
(*                                                                         *)
(* Sizes of all layouts of a thunk (each choice outside flat taking either *)
(* option): the narrowest and widest first line, separately for layouts    *)
(* with a newline (nl) and without (no); and whether every choice in it    *)
(* obeys the rule: the first option never has a newline and is never       *)
(* narrower than the first line of the second option.                      *)
(***************************************************************************)
EXTENDS Layout

None == [some |-> FALSE, lo |-> 0, hi |-> 0]
Iv(lo, hi) == [some |-> TRUE, lo |-> lo, hi |-> hi]
Join(x, y) == IF ~x.some THEN y ELSE IF ~y.some THEN x
              ELSE Iv(IF x.lo < y.lo THEN x.lo ELSE y.lo, IF x.hi > y.hi THEN x.hi ELSE y.hi)
Plus(x, y) == IF x.some /\ y.some THEN Iv(x.lo + y.lo, x.hi + y.hi) ELSE None

RECURSIVE Sizes(_, _)
Sizes(C, t) ==
  LET e == Eval(C, t) IN
  CASE e.k = "txt" -> [nl |-> None, no |-> Iv(e.w, e.w), ok |-> TRUE]
    [] e.k = "nl"  -> [nl |-> Iv(0, 0), no |-> None, ok |-> TRUE]
    [] e.k = "child" -> Sizes(C, e.t)
    [] e.k = "cat" -> LET x == Sizes(C, e.a)
                          y == Sizes(C, e.b)
                      IN [nl |-> Join(x.nl, Plus(x.no, y.nl)), no |-> Plus(x.no, y.no), ok |-> x.ok /\ y.ok]
    [] e.k = "cho" -> LET x == Sizes(C, e.a)
                          y == Sizes(C, e.b)
                          first == Join(y.nl, y.no)
                      IN [nl |-> Join(x.nl, y.nl), no |-> Join(x.no, y.no),
                          ok |-> /\ x.ok /\ y.ok /\ ~x.nl.some
                                 /\ (first.some /\ x.no.some => x.no.lo >= first.hi)]
    [] e.k = "err" -> [nl |-> None, no |-> Iv(0, 0), ok |-> FALSE]
    [] OTHER -> [nl |-> None, no |-> Iv(0, 0), ok |-> TRUE]

Obeys(C) == Sizes(C, RootThunk(C, "")).ok

(* The layout that always takes option k (1 or 2) outside flat regions:     *)
(* widths of its rows, or <<-1>> if text would follow an end-of-line marker *)
RECURSIVE Always(_, _, _, _, _, _)
Always(C, k, work, col, eol, ws) ==
  IF work = <<>> THEN Append(ws, col)
  ELSE
  LET rest == Tail(work)
      e == Eval(C, Head(work))
  IN
  CASE e.k = "txt" -> IF eol THEN <<-1>> ELSE Always(C, k, rest, col + e.w, eol, ws)
    [] e.k = "nl"  -> Always(C, k, rest, SumW(e.ind), FALSE, Append(ws, col))
    [] e.k = "child" -> Always(C, k, <<e.t>> \o rest, col, eol, ws)
    [] e.k = "cat" -> Always(C, k, <<e.a, e.b>> \o rest, col, eol, ws)
    [] e.k = "cho" -> Always(C, k, <<IF k = 1 THEN e.a ELSE e.b>> \o rest, col, eol, ws)
    [] e.k = "eol" -> Always(C, k, rest, col, TRUE, ws)
    [] e.k = "err" -> <<-1>>
    [] OTHER -> Always(C, k, rest, col, eol, ws)
RowsOf(C, k) == Always(C, k, <<RootThunk(C, "")>>, 0, FALSE, <<>>)

(* every line must fit in W *)
MustFit(C, second, W) == second # <<-1>> /\ \A i \in 1..Len(second) : second[i] <= W
(* the document must be printed on this one line *)
MustBeOneLine(C, first, W) == Len(first) = 1 /\ first[1] >= 0 /\ first[1] <= W
=============================================================================
