----------------------------- MODULE Shorthand ------------------------------
(***************************************************************************)
(* What notation the constructor functions and operators build: an         *)
(* expression e (f: the function or operator, other fields: its arguments) *)
(* denotes the notation term Term(e), a tree in the form of PPNotation.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE IF n = 1 THEN " "
             ELSE LET h == Spaces(n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o " "
(* strings of over 3000 bytes are abbreviated by the harness *)
SpaceText(n) == IF n <= 3000 THEN Spaces(n) ELSE "<< *" \o ToString(n) \o ">>"

RECURSIVE Term(_)
Term(e) ==
  LET A == Term(e.a)
      B == Term(e.b)
      Cat(x, y) == [k |-> "cat", a |-> x, b |-> y]
      Nl == [k |-> "nl"]
  IN
  CASE e.f = "+" -> Cat(A, B)
    [] e.f = "|" -> [k |-> "cho", a |-> A, b |-> B]
    [] e.f = "^" -> Cat(Cat(A, Nl), B)
    [] e.f = ">>" -> [k |-> "indent", s |-> SpaceText(e.n), w |-> e.n, l |-> "", a |-> Cat(Nl, A)]
    [] e.f = "lit" -> [k |-> "lit", s |-> e.s, w |-> e.w]
    [] e.f = "child" -> [k |-> "child", i |-> e.i]
    [] e.f = "flat" -> [k |-> "flat", a |-> A]
    [] e.f = "indent" -> [k |-> "indent", s |-> e.s, w |-> e.w, l |-> e.l, a |-> A]
    [] e.f = "style" -> [k |-> "style", l |-> e.l, a |-> A]
    [] e.f = "check" -> [k |-> "check", q |-> e.q, cp |-> e.cp, i |-> e.i, a |-> A, b |-> B]
    [] e.f = "count" -> [k |-> "count", a |-> A, b |-> B, c |-> Term(e.c)]
    [] e.f = "fold" -> [k |-> "fold", a |-> A, b |-> B]
    [] OTHER -> [k |-> e.f]   \* empty nl eol mark text left right

(* How concatenations are grouped does not matter: terms are compared with *)
(* their concatenations as lists.                                          *)
RECURSIVE Items(_)
RECURSIVE Canon(_)
Items(t) == IF t.k = "cat" THEN Items(t.a) \o Items(t.b) ELSE <<Canon(t)>>
Canon(t) ==
  IF t.k = "cat" THEN [k |-> "seq", xs |-> Items(t)]
  ELSE [f \in DOMAIN t |-> IF f \in {"a", "b", "c"} THEN Canon(t[f]) ELSE t[f]]
=============================================================================
