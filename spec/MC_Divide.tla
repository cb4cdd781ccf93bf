----------------------------- MODULE MC_Divide ------------------------------
(***************************************************************************)
(* All small divisions of space: the computed allocation has the declared  *)
(* properties.  Exported, to be displayed by the real code as well.        *)
(***************************************************************************)
EXTENDS Panes, Json, IOUtils

Big == IOEnv.BIG = "1"
Export == IOEnv.EXPORT = "1"
MaxAvail == IF Big THEN 9 ELSE 6
MaxLen == IF Big THEN 4 ELSE 3
S(z, n) == [z |-> z, n |-> n]
Sizes == {S("fix", n) : n \in 0..3} \cup {S("dyn", n) : n \in 1..2}
         \cup {S("prop", n) : n \in IF Big THEN {0, 1, 2, 3, 5} ELSE 0..3}

VARIABLES avail, sizes
Init == /\ avail \in 0..MaxAvail
        /\ \E n \in 0..MaxLen : sizes \in [1..n -> Sizes]
        \* four subpanes: only where the proportional rule has work to do
        /\ Len(sizes) = 4 => Cardinality({i \in 1..4 : sizes[i].z = "prop"}) >= 3
        /\ IF Export THEN PrintT("EXPORT " \o ToJson([avail |-> avail, sizes |-> sizes])) ELSE TRUE
Next == UNCHANGED <<avail, sizes>>

(* dynamic subpanes take what they want while it lasts *)
RECURSIVE GiveDyn(_, _)
GiveDyn(a, s) == IF s = <<>> THEN <<>>
                 ELSE LET g == IF s[1].z = "dyn" THEN Min2(a, s[1].n) ELSE 0 IN <<g>> \o GiveDyn(a - g, Tail(s))
F == GiveFixed(avail, sizes)
D == GiveDyn(avail - SumSeq(F), sizes)
A == Divide(avail, sizes, D)
N == Len(sizes)
Is(i, z) == sizes[i].z = z
Rest == avail - SumSeq(F) - SumSeq(D)
RECURSIVE Weights(_)
Weights(I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN sizes[i].n + Weights(I \ {i})
Props == {i \in 1..N : Is(i, "prop")}
T == Weights(Props)

RECURSIVE SumOver(_, _)
SumOver(f, I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN f[i] + SumOver(f, I \ {i})

FixedFirst == \A i \in 1..N : Is(i, "fix") =>
  A[i] = Min2(sizes[i].n, avail - SumOver(A, {j \in 1..(i - 1) : Is(j, "fix")}))
DynamicNext == \A i \in 1..N : Is(i, "dyn") =>
  A[i] = Min2(sizes[i].n, avail - SumOver(A, {j \in 1..N : Is(j, "fix") \/ (j < i /\ Is(j, "dyn"))}))
(* |A[i] - exact share| < 1, in integers *)
WithinOneCell == \A i \in Props : T > 0 => A[i] * T - Rest * sizes[i].n < T /\ Rest * sizes[i].n - A[i] * T < T
AllHandedOut == T > 0 => SumOver(A, 1..N) = avail
NeverTooMuch == SumOver(A, 1..N) <= avail
ZeroGetsNothing == \A i \in Props : sizes[i].n = 0 => A[i] = 0
(* who gets a leftover cell has a larger fraction than who does not; among *)
(* equal fractions the leftmost gets it                                    *)
Extra(i) == A[i] * T > Rest * sizes[i].n
Fraction(i) == (Rest * sizes[i].n) % T
LargestFractions == \A i, j \in Props :
  T > 0 /\ Fraction(i) > 0 /\ Fraction(j) > 0 /\ Extra(i) /\ ~Extra(j) => Fraction(i) > Fraction(j) \/ (Fraction(i) = Fraction(j) /\ i < j)
MoreWeightMoreSpace == \A i, j \in Props : sizes[i].n > sizes[j].n => A[i] >= A[j]
=============================================================================
