----------------------------- MODULE MC_Validate -----------------------------
(***************************************************************************)
(* All terms up to MAX constructs: the one-pass analysis finds exactly the *)
(* declared flaws.  The terms are exported (OUT) to be validated by the    *)
(* real code as well.                                                      *)
(***************************************************************************)
EXTENDS Validate, Json, IOUtils, SequencesExt

MAX == IF IOEnv.MAX = "3" THEN 3 ELSE IF IOEnv.MAX = "4" THEN 4 ELSE IF IOEnv.MAX = "5" THEN 5 ELSE 0
SMALL == IOEnv.SMALL = "1"     \* fewer leaves, for larger terms

Atom(k) == [k |-> k]
Leaves ==
  IF SMALL
  THEN {Atom("eol"), Atom("mark"), Atom("left"), [k |-> "lit", s |-> "x", w |-> 1], [k |-> "child", i |-> 1], Atom("nl")}
  ELSE {Atom(k) : k \in {"empty", "nl", "eol", "mark", "text", "left", "right"}}
       \cup {[k |-> "lit", s |-> "x", w |-> 1]}
       \cup {[k |-> "child", i |-> i] : i \in {0, -1, 1, -2}}
Un(S) == IF SMALL THEN {[k |-> "flat", a |-> x] : x \in S}
         ELSE {[k |-> "flat", a |-> x] : x \in S} \cup {[k |-> "style", l |-> "A", a |-> x] : x \in S}
              \cup {[k |-> "indent", s |-> " ", w |-> 1, l |-> "", a |-> x] : x \in S}
Bin(S, T) ==
  {[k |-> k, a |-> x, b |-> y] : k \in {"cat", "cho", "fold"}, x \in S, y \in T}
  \cup (IF SMALL THEN {[k |-> "check", q |-> "p", cp |-> "left", i |-> 0, a |-> x, b |-> y] : x \in S, y \in T}
        ELSE {[k |-> "check", q |-> "p", cp |-> c[1], i |-> c[2], a |-> x, b |-> y] :
               c \in {<<"here", 0>>, <<"left", 0>>, <<"right", 0>>, <<"child", 0>>, <<"child", 1>>, <<"child", -2>>}, x \in S, y \in T})
Tern(S) == {[k |-> "count", a |-> x, b |-> y, c |-> z] : x \in S, y \in S, z \in S}

T1 == Leaves
T2 == Un(T1)
T3 == Un(T2) \cup Bin(T1, T1)

(* Every context a construct can be in: options of counts, parts of folds, *)
(* either inside of the other, after or before markers, in an option.      *)
E == Atom("empty")
Count3(x, y, z) == [k |-> "count", a |-> x, b |-> y, c |-> z]
Cat2(x, y) == [k |-> "cat", a |-> x, b |-> y]
InCount(x) == {Count3(x, E, E), Count3(E, x, E), Count3(E, E, x)}
InFold(x) == {[k |-> "fold", a |-> x, b |-> E], [k |-> "fold", a |-> E, b |-> x]}
InBoth(x) == UNION {InFold(y) : y \in InCount(x)} \cup UNION {InCount(y) : y \in InFold(x)}
             \cup UNION {InCount(y) : y \in InCount(x)} \cup UNION {InFold(y) : y \in InFold(x)}
InOption(x) == {[k |-> "cho", a |-> x, b |-> E], [k |-> "cho", a |-> E, b |-> x],
                [k |-> "check", q |-> "p", cp |-> "here", i |-> 0, a |-> E, b |-> x]}
M == {Atom("eol"), Atom("mark"), [k |-> "lit", s |-> "x", w |-> 1], Atom("nl")}
Between(x) == {Cat2(p, Cat2(x, q)) : p \in M, q \in M}
CONTEXTS == IOEnv.MAX = "contexts"

VARIABLE t
OneOf(S, T) == \E x \in S, y \in T : t \in Bin({x}, {y})
Init ==
  \/ ~CONTEXTS /\ t \in T1 \cup T2 \cup T3
  \/ CONTEXTS /\ \E x \in T3 : t \in InCount(x) \cup InFold(x)
  \/ CONTEXTS /\ \E x \in T1 \cup T2 : t \in InBoth(x) \cup UNION {Between(y) : y \in {x} \cup InCount(x) \cup InFold(x) \cup InOption(x)}
  \/ MAX > 3 /\ (\/ \E x \in T3 : t \in Un({x})
                 \/ OneOf(T1, T2) \/ OneOf(T2, T1)
                 \/ \E x \in T1, y \in T1, z \in T1 : t = [k |-> "count", a |-> x, b |-> y, c |-> z])
  \/ MAX > 4 /\ (OneOf(T1, T3) \/ OneOf(T3, T1) \/ OneOf(T2, T2)
                 \/ \E x \in T1, y \in T1, z \in T2 : t \in {[k |-> "count", a |-> x, b |-> y, c |-> z], [k |-> "count", a |-> z, b |-> x, c |-> y], [k |-> "count", a |-> x, b |-> z, c |-> y]})
Next == UNCHANGED t
Agree == Flaws(t) = DeclaredFlaws(t)
Export == IF IOEnv.EXPORT = "1" THEN PrintT("EXPORT " \o ToJson(t)) ELSE TRUE
=============================================================================
