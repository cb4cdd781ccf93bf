--------------------------- MODULE MC_BasicStyles ---------------------------
(***************************************************************************)
(* Combining styles one by one: the innermost one decides the colour, any  *)
(* bold one makes it bold, and it does not matter how they are grouped.    *)
(* Every sequence is exported, to be combined by the real code.            *)
(***************************************************************************)
EXTENDS BasicStyles, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
VARIABLES s, acc
Init == \E x \in Styles : s = <<x>> /\ acc = x
Next == /\ Len(s) < Depth
        /\ \E x \in Styles : s' = Append(s, x) /\ acc' = Combine(acc, x)
        /\ PrintT("EXPORT " \o ToJson(s'))
AnyBold(t) == \E i \in 1..Len(t) : t[i].b
RECURSIVE FromRight(_)
FromRight(t) == IF Len(t) = 1 THEN t[1] ELSE Combine(t[1], FromRight(Tail(t)))
Meaning == acc = [c |-> s[Len(s)].c, b |-> AnyBold(s)]
Grouping == acc = FromRight(s)
=============================================================================
