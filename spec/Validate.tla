------------------------------ MODULE Validate ------------------------------
(***************************************************************************)
(* What validation must accept (property L06).  A notation term is a       *)
(* nested record with a kind k and the fields of PPNotation (a, b, c are   *)
(* terms here).  A flaw is a pair <<name, index>>.                         *)
(*                                                                         *)
(* Flaws(t) is the efficient, one-pass definition; DeclaredFlaws(t) says   *)
(* the same by enumerating every way of picking options (the documented    *)
(* meaning).  MC_Validate checks that they agree on all small terms.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Unary  == {"flat", "indent", "style"}
Binary == {"cat", "cho", "check", "fold"}

OneOk(i) == i = 0 \/ i = -1

(* flaws of a single construct in its context: inside which option of a    *)
(* count (cnt) and which part of a fold (fld)                              *)
Local(t, cnt, fld) ==
  LET k == t.k IN
  CASE k = "text" -> (IF cnt # "no" THEN {<<"TextInsideCount", 0>>} ELSE {}) \cup
                     (IF fld # "no" THEN {<<"TextInsideFold", 0>>} ELSE {})
    [] k = "child" -> IF cnt = "zero" THEN {<<"CountZeroChild", 0>>}
                      ELSE IF cnt = "one" /\ ~OneOk(t.i) THEN {<<"CountOneChildIndex", t.i>>} ELSE {}
    [] k = "left" -> IF fld # "join" THEN {<<"LeftOutsideJoin", 0>>} ELSE {}
    [] k = "right" -> IF fld # "join" THEN {<<"RightOutsideJoin", 0>>} ELSE {}
    [] k = "count" -> IF cnt # "no" THEN {<<"NestedCount", 0>>} ELSE {}
    [] k = "fold" -> IF fld # "no" THEN {<<"NestedFold", 0>>} ELSE {}
    [] k = "check" ->
         (CASE t.cp = "here" -> {}
           [] t.cp = "left" -> IF fld # "join" THEN {<<"CheckPosLeftOutsideJoin", 0>>} ELSE {}
           [] t.cp = "right" -> IF fld # "join" THEN {<<"CheckPosRightOutsideJoin", 0>>} ELSE {}
           [] t.cp = "child" -> IF cnt = "zero" THEN {<<"CountZeroCheckPosChild", 0>>}
                                ELSE IF cnt = "one" /\ ~OneOk(t.i) THEN {<<"CountOneCheckPosChildIndex", t.i>>} ELSE {})
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* One pass: e = an end of line may directly precede, m = a mark certainly precedes *)
Hist(e, m) == [e |-> e, m |-> m]
Either(x, y) == Hist(x.e \/ y.e, x.m /\ y.m)
Unknown == Hist(FALSE, FALSE)

RECURSIVE Pass(_, _, _, _)
Pass(t, cnt, fld, h) ==
  LET k == t.k
      loc == Local(t, cnt, fld)
      Out(f, g) == [f |-> loc \cup f, h |-> g]
  IN
  CASE k \in {"lit", "text"} -> Out(IF h.e THEN {<<"TextAfterEol", 0>>} ELSE {}, Hist(FALSE, h.m))
    [] k = "eol" -> Out({}, Hist(TRUE, h.m))
    [] k \in {"nl", "child"} -> Out({}, Hist(FALSE, h.m))
    [] k = "mark" -> Out(IF h.m THEN {<<"MultipleFocusMarks", 0>>} ELSE {}, Hist(h.e, TRUE))
    [] k \in {"left", "right"} -> Out({}, Unknown)
    [] k \in Unary -> LET x == Pass(t.a, cnt, fld, h) IN Out(x.f, x.h)
    [] k = "cat" -> LET x == Pass(t.a, cnt, fld, h)
                        y == Pass(t.b, cnt, fld, x.h)
                    IN Out(x.f \cup y.f, y.h)
    [] k \in {"cho", "check"} ->
         LET x == Pass(t.a, cnt, fld, h)
             y == Pass(t.b, cnt, fld, h)
         IN Out(x.f \cup y.f, Either(x.h, y.h))
    [] k = "count" ->
         LET x == Pass(t.a, "zero", fld, h)
             y == Pass(t.b, "one", fld, h)
             z == Pass(t.c, "many", fld, h)
         IN Out(x.f \cup y.f \cup z.f, Either(Either(x.h, y.h), z.h))
    [] k = "fold" ->
         Out(Pass(t.a, cnt, "first", Unknown).f \cup Pass(t.b, cnt, "join", Unknown).f, Unknown)
    [] OTHER -> Out({}, h)

Flaws(t) == Pass(t, "no", "no", Unknown).f

-----------------------------------------------------------------------------
(* By enumeration.  A way through a term is the sequence of what it shows: *)
(* "T" text, "N" newline, "E" end of line, "C" child, "R" unknown (a fold, *)
(* left or right), or <<"M", where>> for a focus mark.                     *)
Cross(S, T) == {s \o u : s \in S, u \in T}
RECURSIVE Ways(_, _)
Ways(t, at) ==
  LET k == t.k IN
  CASE k \in {"lit", "text"} -> {<<<<"T", at>>>>}
    [] k = "eol" -> {<<<<"E", at>>>>}
    [] k = "nl" -> {<<<<"N", at>>>>}
    [] k = "child" -> {<<<<"C", at>>>>}
    [] k = "mark" -> {<<<<"M", at>>>>}
    [] k \in {"left", "right", "fold"} -> {<<<<"R", at>>>>}
    [] k \in Unary -> Ways(t.a, Append(at, 1))
    [] k = "cat" -> Cross(Ways(t.a, Append(at, 1)), Ways(t.b, Append(at, 2)))
    [] k \in {"cho", "check"} -> Ways(t.a, Append(at, 1)) \cup Ways(t.b, Append(at, 2))
    [] k = "count" -> Ways(t.a, Append(at, 1)) \cup Ways(t.b, Append(at, 2)) \cup Ways(t.c, Append(at, 3))
    [] OTHER -> {<<>>}

TextDirectlyAfterEol(ways) ==
  \E w \in ways : \E i, j \in 1..Len(w) :
    i < j /\ w[i][1] = "E" /\ w[j][1] = "T" /\ \A x \in (i + 1)..(j - 1) : w[x][1] = "M"

MarkAlwaysAfterMark(ways) ==
  LET marks == UNION {{w[i][2] : i \in {i \in 1..Len(w) : w[i][1] = "M"}} : w \in ways} IN
  \E m \in marks : \A w \in ways : \A j \in 1..Len(w) :
    (w[j] = <<"M", m>>) => \E i \in 1..(j - 1) : w[i][1] = "M" /\ \A x \in i..j : w[x][1] # "R"

RECURSIVE Parts(_), Everywhere(_, _, _)
(* the term itself and both parts of every fold in it are judged separately *)
FoldsIn(t) == Parts(t)
Parts(t) ==
  LET k == t.k IN
  CASE k = "fold" -> {t.a, t.b} \cup Parts(t.a) \cup Parts(t.b)
    [] k \in Unary -> Parts(t.a)
    [] k \in {"cat", "cho", "check"} -> Parts(t.a) \cup Parts(t.b)
    [] k = "count" -> Parts(t.a) \cup Parts(t.b) \cup Parts(t.c)
    [] OTHER -> {}
Everywhere(t, cnt, fld) ==
  LET k == t.k IN
  Local(t, cnt, fld) \cup
  (CASE k = "fold" -> Everywhere(t.a, cnt, "first") \cup Everywhere(t.b, cnt, "join")
    [] k \in Unary -> Everywhere(t.a, cnt, fld)
    [] k \in {"cat", "cho", "check"} -> Everywhere(t.a, cnt, fld) \cup Everywhere(t.b, cnt, fld)
    [] k = "count" -> Everywhere(t.a, "zero", fld) \cup Everywhere(t.b, "one", fld) \cup Everywhere(t.c, "many", fld)
    [] OTHER -> {})

DeclaredFlaws(t) ==
  LET parts == {t} \cup Parts(t)
      ways == {Ways(x, <<>>) : x \in parts}
  IN Everywhere(t, "no", "no")
     \cup (IF \E w \in ways : TextDirectlyAfterEol(w) THEN {<<"TextAfterEol", 0>>} ELSE {})
     \cup (IF \E w \in ways : MarkAlwaysAfterMark(w) THEN {<<"MultipleFocusMarks", 0>>} ELSE {})
=============================================================================
