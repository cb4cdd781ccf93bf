----------------------------- MODULE SmallDocs -----------------------------
(***************************************************************************)
(* All small documents of a family: a root whose notation is any term up   *)
(* to a size over a few leaves, with two children shown by fixed           *)
(* notations.  Used by the models that explore the specification           *)
(* exhaustively and export its behaviours to be replayed on the real code. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Families:
     plain      children on the page, flat and indented parts
     eol, mark  with end-of-line markers, with focus marks
     eol0       text that ends its line, before a child without text
     eol1       a single node with end-of-line markers
     fold       a fold over three children, with any join
     cond       checks and counts over any number of children
     condfold   a join that checks the children it joins
     miss       a notation that does not suit its node
     style      labelled regions and indentation                           *)

Atom(k) == [k |-> k]
Lit(s, w) == [k |-> "lit", s |-> s, w |-> w]
Ch(i) == [k |-> "child", i |-> i]
Ind(x) == [k |-> "indent", s |-> " ", w |-> 1, l |-> "", a |-> x]
Cat(x, y) == [k |-> "cat", a |-> x, b |-> y]
Cho(x, y) == [k |-> "cho", a |-> x, b |-> y]

(* families: which leaves and constructs *)
Check(cp, i, x, y) == [k |-> "check", q |-> "q", cp |-> cp, i |-> i, a |-> x, b |-> y]
Leaves(fam) ==
  CASE fam = "plain" -> {Lit("aa", 2), Atom("nl"), Ch(0), Ch(1)}
    [] fam = "eol"   -> {Lit("aa", 2), Atom("nl"), Atom("eol"), Ch(0)}
    [] fam = "mark"  -> {Lit("aa", 2), Atom("nl"), Atom("mark"), Ch(0)}
    [] fam = "eol0"  -> {Lit("aa", 2), Atom("nl"), Cat(Lit("aa", 2), Atom("eol")), Ch(0)}
    [] fam = "eol1"  -> {Lit("aa", 2), Atom("nl"), Atom("eol")}
    [] fam = "fold"  -> {Lit("aa", 2), Atom("nl"), Atom("left"), Atom("right")}
    [] fam = "cond"  -> {Lit("aa", 2), Atom("nl"), Ch(0), Ch(-1)}
    [] fam = "condfold" -> {Lit("aa", 2), Atom("left"), Atom("right")}
    [] fam = "miss"  -> {Lit("aa", 2), Atom("nl"), Atom("text"), Ch(0), Ch(2), Ch(-3)}
    [] fam = "style" -> {Lit("aa", 2), Atom("nl"), Ch(0)}
Un(fam, S) ==
  CASE fam = "plain" -> {[k |-> "flat", a |-> x] : x \in S} \cup {Ind(x) : x \in S}
    [] fam \in {"fold", "eol1", "cond"} -> {[k |-> "flat", a |-> x] : x \in S}
    [] fam = "style" -> {[k |-> "style", l |-> "A", a |-> x] : x \in S}
                        \cup {[k |-> "indent", s |-> "  ", w |-> 2, l |-> "B", a |-> x] : x \in S}
    [] OTHER -> {}
Bin(fam, S, T) ==
  {[k |-> k, a |-> x, b |-> y] : k \in IF fam = "condfold" THEN {"cat"} ELSE {"cat", "cho"}, x \in S, y \in T}
  \cup CASE fam = "cond" -> {Check(p[1], p[2], x, y) : p \in {<<"here", 0>>, <<"child", 0>>, <<"child", -1>>}, x \in S, y \in T}
                            \cup {[k |-> "count", a |-> x, b |-> y, c |-> Lit("m", 1)] : x \in S, y \in T}
         [] fam = "condfold" -> {Check(p, 0, x, y) : p \in {"here", "left", "right"}, x \in S, y \in T}
         [] fam = "miss" -> {Check("child", 2, x, y) : x \in S, y \in T}
         [] OTHER -> {}

RECURSIVE Terms(_, _)
Terms(fam, n) ==
  IF n = 1 THEN Leaves(fam)
  ELSE Un(fam, Terms(fam, n - 1))
       \cup (IF n < 3 THEN {} ELSE UNION {Bin(fam, Terms(fam, i), Terms(fam, n - 1 - i)) : i \in 1..(n - 2)})

(* a term as a table *)
RECURSIVE Put(_, _)
Put(N, t) ==
  IF "c" \in DOMAIN t THEN LET x == Put(N, t.a)
                               y == Put(x, t.b)
                               z == Put(y, t.c)
                           IN Append(z, [t EXCEPT !.a = Len(x), !.b = Len(y), !.c = Len(z)])
  ELSE IF "b" \in DOMAIN t THEN LET x == Put(N, t.a)
                               y == Put(x, t.b)
                           IN Append(y, [t EXCEPT !.a = Len(x), !.b = Len(y)])
  ELSE IF "a" \in DOMAIN t THEN LET x == Put(N, t.a) IN Append(x, [t EXCEPT !.a = Len(x)])
  ELSE Append(N, t)

(* the whole notation of the root for a term of the family *)
Whole(fam, t) ==
  IF fam \in {"fold", "condfold"} THEN [k |-> "fold", a |-> Cho(Lit("f", 1), Cat(Atom("nl"), Ch(0))), b |-> t] ELSE t

(* the two children: a text, and a list shown on one line or two *)
Second == Cho(Lit("cc", 2), Cat(Lit("d", 1), Cat(Atom("nl"), Lit("e", 1))))

(* cs: the nodes (by name) for which the condition q is true *)
DocCs(fam, t, kids, cs) ==
  LET n1 == Put(<<>>, Whole(fam, t))
      n2 == Append(n1, Atom("text"))
      n3 == Put(n2, Second)
      Cs(nm) == IF nm \in cs THEN <<"q">> ELSE <<>>
      Text(nm) == [n |-> Len(n2), nm |-> nm, t |-> TRUE,
                   s |-> IF fam = "eol0" THEN "" ELSE "b", w |-> IF fam = "eol0" THEN 0 ELSE 1, ch |-> <<>>, cs |-> Cs(nm), ns |-> "n" \o nm]
      List(nm) == [n |-> Len(n3), nm |-> nm, t |-> FALSE, s |-> "", w |-> 0, ch |-> <<>>, cs |-> Cs(nm), ns |-> "n" \o nm]
      Root(ch) == [n |-> Len(n1), nm |-> "1", t |-> FALSE, s |-> "", w |-> 0, ch |-> ch, cs |-> Cs("1"), ns |-> "n1"]
  IN [N |-> IF kids = 0 THEN n1 ELSE n3,
      D |-> SubSeq(<<Root([i \in 1..kids |-> i + 1]), Text("2"), List("3"), Text("4")>>, 1, kids + 1)]
Doc(fam, t, kids) == DocCs(fam, t, kids, {})

(* how many children the root has; which nodes the condition may be true of *)
KidsOf(fam) ==
  CASE fam \in {"fold", "condfold"} -> {3}
    [] fam = "eol1" -> {0}
    [] fam = "cond" -> {0, 1, 2, 3}
    [] OTHER -> {2}
CsOf(fam, kids) ==
  CASE fam = "cond" -> SUBSET (IF kids = 0 THEN {"1"} ELSE {"1", "2", ToString(kids + 1)})
    [] fam = "condfold" -> SUBSET {"1", "2", "3", "4"}
    [] OTHER -> {{}}
Docs(fam, n) == UNION {UNION {{DocCs(fam, t, k, cs) : t \in Terms(fam, n)} : cs \in CsOf(fam, k)} : k \in KidsOf(fam)}
=============================================================================
