------------------------------ MODULE MC_Shown ------------------------------
(***************************************************************************)
(* What is shown of a notation tells it apart from every other: over all   *)
(* small expressions, two terms are shown alike only if they are the same  *)
(* up to the grouping of concatenations, the lengths that go with texts    *)
(* and the styles of indentation.  The expressions are MC_Terms's.         *)
(***************************************************************************)
EXTENDS Shown, FiniteSets, IOUtils
M == INSTANCE MC_Terms WITH e <- 0, phase <- 0
Size == atoi(IOEnv.SIZE)
Sym == [empty |-> "_", nl |-> "/", arrow |-> "=>"]
RECURSIVE Seen(_)
Seen(t) == IF t.k = "seq" THEN [k |-> "seq", xs |-> [i \in 1..Len(t.xs) |-> Seen(t.xs[i])]]
           ELSE [f \in DOMAIN t \ {x \in {"l"} : t.k = "indent"} |-> IF f \in {"a", "b", "c"} THEN Seen(t[f]) ELSE t[f]]
VARIABLE n
Init == n = 0
Next == n = 0 /\ LET es == UNION {M!Es(i, TRUE) : i \in 1..Size}
                     pairs == {<<Seen(Canon(Term(x))), Show(Term(x), Sym)>> : x \in es}
                 IN n' = IF Cardinality({p[1] : p \in pairs}) = Cardinality({p[2] : p \in pairs})
                            /\ Cardinality(pairs) = Cardinality({p[2] : p \in pairs}) THEN 1 ELSE 2
Faithful == n # 2
=============================================================================
