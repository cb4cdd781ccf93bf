------------------------------ MODULE MC_Terms ------------------------------
(***************************************************************************)
(* All small expressions over the constructors and operators; exported, to *)
(* be built by the real functions.  For those made of texts, line breaks   *)
(* and the operators + ^ >>, what they display is stated directly (Says)   *)
(* and must be what the reference layout makes of the term.                *)
(***************************************************************************)
EXTENDS Shorthand, Json, IOUtils
L == INSTANCE Layout
Size == atoi(IOEnv.SIZE)
Export == IOEnv.EXPORT = "1"

F(f) == [f |-> f]
Leaves == {F("empty"), F("nl"), F("eol"), F("mark"), F("text"), F("left"), F("right"),
           [f |-> "lit", s |-> "ab", w |-> 2], [f |-> "child", i |-> -1]}
Few == {F("nl"), F("text"), [f |-> "lit", s |-> "ab", w |-> 2]}
RECURSIVE Es(_, _)
Es(n, top) ==
  IF n = 1 THEN IF top THEN Leaves ELSE Few
  ELSE UNION {{[f |-> "flat", a |-> x], [f |-> ">>", n |-> 3, a |-> x], [f |-> ">>", n |-> 0, a |-> x], [f |-> "style", l |-> "l", a |-> x],
               [f |-> "indent", s |-> "> ", w |-> 2, l |-> "", a |-> x], [f |-> "indent", s |-> "", w |-> 0, l |-> "m", a |-> x]} : x \in Es(n - 1, top /\ n <= 3)}
       \cup UNION {{[f |-> f, a |-> x, b |-> y] : f \in {"+", "|", "^", "fold"}, x \in Es(m, top /\ n <= 3), y \in Es(n - 1 - m, top /\ n <= 3)} : m \in 1..n-2}
       \cup UNION {{[f |-> "check", q |-> "p", cp |-> cp, i |-> IF cp = "child" THEN 1 ELSE 0, a |-> x, b |-> y]
                    : cp \in {"here", "child", "left", "right"}, x \in Es(m, FALSE), y \in Es(n - 1 - m, FALSE)} : m \in 1..n-2}
       \cup UNION {{[f |-> "count", a |-> x, b |-> y, c |-> z] : x \in Es(1, FALSE), y \in Es(1, FALSE), z \in Es(n - 3, FALSE)} : m \in IF n > 3 THEN {1} ELSE {}}

VARIABLES e, phase
Init == phase = 0 /\ \E n \in 1..Size : e \in Es(n, TRUE)
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED e /\ (IF Export THEN PrintT("EXPORT " \o ToJson(e)) ELSE TRUE)

RECURSIVE Simple(_)
Simple(x) == CASE x.f \in {"lit", "nl"} -> TRUE
               [] x.f \in {"+", "^"} -> Simple(x.a) /\ Simple(x.b)
               [] x.f = ">>" -> Simple(x.a)
               [] OTHER -> FALSE
Glue(x, y) == SubSeq(x, 1, Len(x) - 1) \o <<x[Len(x)] \o y[1]>> \o Tail(y)
RECURSIVE Says(_, _)
Says(x, ind) ==
  CASE x.f = "lit" -> <<x.s>>
    [] x.f = "nl" -> <<"", Spaces(ind)>>
    [] x.f = "+" -> Glue(Says(x.a, ind), Says(x.b, ind))
    [] x.f = "^" -> Glue(Glue(Says(x.a, ind), <<"", Spaces(ind)>>), Says(x.b, ind))
    [] x.f = ">>" -> Glue(<<"", Spaces(ind + x.n)>>, Says(x.a, ind + x.n))
RECURSIVE Table(_, _)
Table(t, x) ==
  LET D == DOMAIN x
      t1 == IF "a" \in D THEN Table(t, x.a) ELSE t
      t2 == IF "b" \in D THEN Table(t1, x.b) ELSE t1
      y1 == IF "a" \in D THEN [x EXCEPT !.a = Len(t1)] ELSE x
      y2 == IF "b" \in D THEN [y1 EXCEPT !.b = Len(t2)] ELSE y1
  IN Append(t2, y2)
Meaning == phase = 1 /\ Simple(e) =>
  LET N == Table(<<>>, Term(e))
      C == [N |-> N, D |-> <<[n |-> Len(N), nm |-> "1", t |-> TRUE, s |-> "", w |-> 0, ch |-> <<>>, cs |-> <<>>, ns |-> "n"]>>]
      lay == L!LayoutOf(C, 5, "")
  IN [r \in 1..Len(lay.rows) |-> L!TextOf(lay.rows[r].segs)] = Says(e, 0)
=============================================================================
