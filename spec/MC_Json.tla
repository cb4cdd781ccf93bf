------------------------------ MODULE MC_Json -------------------------------
(***************************************************************************)
(* All small JSON values with comments, at all small widths: printing the  *)
(* documented notations with the reference layout gives the display that   *)
(* JsonText states directly, and that display reads back as the value.     *)
(* The values are exported, to be printed by the real code.                *)
(***************************************************************************)
EXTENDS JsonText, Json, IOUtils
L == INSTANCE Layout

Export == IOEnv.EXPORT = "1"
Size == atoi(IOEnv.SIZE)

-----------------------------------------------------------------------------
(* the notations, as documented *)
Lit(s) == [k |-> "lit", s |-> s, w |-> Len(s)]
K(k) == [k |-> k]
Cat(x, y) == [k |-> "cat", a |-> x, b |-> y]
Cho(x, y) == [k |-> "cho", a |-> x, b |-> y]
Sty(l, x) == [k |-> "style", l |-> l, a |-> x]
Ind(s, x) == [k |-> "indent", s |-> s, w |-> Len(s), l |-> "", a |-> x]
Fold(x, y) == [k |-> "fold", a |-> x, b |-> y]
Cnt(x, y, z) == [k |-> "count", a |-> x, b |-> y, c |-> z]
Child(i) == [k |-> "child", i |-> i]
Flat(x) == [k |-> "flat", a |-> x]
Comma == [k |-> "check", q |-> "sep", cp |-> "left", i |-> 0, a |-> Lit(","), b |-> K("empty")]
Seq_(o, c) ==
  LET one == Cat(Cat(Sty("open", Lit(o)), Fold(Flat(Child(0)), Cat(Cat(K("left"), Lit(", ")), Flat(K("right"))))), Sty("close", Lit(c)))
      each == Fold(Child(0), Cat(Cat(Cat(K("left"), Comma), K("nl")), K("right")))
      multi == Cat(Cat(Cat(Sty("open", Lit(o)), Ind("    ", Cat(K("nl"), each))), K("nl")), Sty("close", Lit(c)))
      both == Cho(one, multi)
  IN Cnt(Cat(Cat(Sty("open", Lit(o)), K("mark")), Sty("close", Lit(c))), both, both)
Body == Cnt(K("mark"), Child(0), Fold(Child(0), Cat(Cat(K("left"), Cho(Lit(" "), K("nl"))), K("right"))))
Note(k) ==
  CASE k = "null" -> Sty("bold_green", Lit("null"))
    [] k = "str" -> Sty("magenta", Cat(Cat(Lit("\""), K("text")), Lit("\"")))
    [] k = "num" -> Sty("blue", K("text"))
    [] k = "arr" -> Seq_("[", "]")
    [] k = "obj" -> Seq_("{", "}")
    [] k = "pair" -> Cat(Cat(Child(0), Lit(": ")), Child(1))
    [] k = "com" -> Sty("yellow", Cat(Cat(Lit("// "), Ind("// ", Body)), K("eol")))
    [] k = "word" -> Sty("yellow", K("text"))
    [] k = "roots" -> Cnt(K("mark"), Child(0), Fold(Child(0), Cat(Cat(K("left"), K("nl")), K("right"))))
Kinds == <<"null", "str", "num", "arr", "obj", "pair", "com", "word", "roots">>

RECURSIVE Table(_, _)
Table(t, x) ==   \* append x and what it is made of; x itself comes last
  LET F == DOMAIN x
      t1 == IF "a" \in F THEN Table(t, x.a) ELSE t
      t2 == IF "b" \in F THEN Table(t1, x.b) ELSE t1
      t3 == IF "c" \in F THEN Table(t2, x.c) ELSE t2
      y1 == IF "a" \in F THEN [x EXCEPT !.a = Len(t1)] ELSE x
      y2 == IF "b" \in F THEN [y1 EXCEPT !.b = Len(t2)] ELSE y1
      y3 == IF "c" \in F THEN [y2 EXCEPT !.c = Len(t3)] ELSE y2
  IN Append(t3, y3)
RECURSIVE AllTables(_, _)
AllTables(t, n) == IF n > Len(Kinds) THEN t ELSE AllTables(Table(t, Note(Kinds[n])), n + 1)
Notes == AllTables(<<>>, 1)
RootsOf[n \in 0..Len(Kinds)] == IF n = 0 THEN 0 ELSE RootsOf[n - 1] + Len(Table(<<>>, Note(Kinds[n])))
NoteIx(k) == RootsOf[CHOOSE n \in 1..Len(Kinds) : Kinds[n] = k]

(* the document nodes of a value: a string key and comment words are nodes *)
Node(k, s, w, ch, cs) ==
  [n |-> NoteIx(k), nm |-> "x", t |-> k \in {"str", "num", "word"}, s |-> s, w |-> w, ch |-> ch, cs |-> cs, ns |-> "n"]
RECURSIVE Doc(_, _, _)
RECURSIVE DocAll(_, _, _, _)
RECURSIVE DocWords(_, _)
DocWords(D, ws) == IF ws = <<>> THEN D ELSE DocWords(Append(D, Node("word", Head(ws)[1], Head(ws)[2], <<>>, <<>>)), Tail(ws))
(* nodes of the entries of ch from n on, appended to D; [D, roots] *)
DocAll(J, D, ch, n) ==
  IF n > Len(ch) THEN [D |-> D, r |-> <<>>]
  ELSE LET d == Doc(J, D, ch[n])
           e == [d EXCEPT ![Len(d)].cs = IF NeedsComma(J, ch, n) THEN <<"sep">> ELSE <<>>]
           rest == DocAll(J, e, ch, n + 1)
       IN [D |-> rest.D, r |-> <<Len(d)>> \o rest.r]
Doc(J, D, i) ==
  LET x == J.V[i] IN
  CASE x.k = "com" -> LET d == DocWords(D, x.words)
                      IN Append(d, Node("com", "", 0, [n \in 1..Len(x.words) |-> Len(D) + n], <<>>))
    [] x.k = "pair" -> LET d == Doc(J, Append(D, Node("str", x.s, x.w, <<>>, <<>>)), x.ch[1])
                       IN Append(d, Node("pair", "", 0, <<Len(D) + 1, Len(d)>>, <<>>))
    [] x.k \in {"arr", "obj", "roots"} -> LET d == DocAll(J, D, x.ch, 1) IN Append(d.D, Node(x.k, "", 0, d.r, <<>>))
    [] OTHER -> Append(D, Node(x.k, x.s, x.w, <<>>, <<>>))
(* the root first *)
Rotate(D) ==
  LET n == Len(D)
      To(i) == IF i = n THEN 1 ELSE i + 1
  IN [i \in 1..n |-> LET x == D[IF i = 1 THEN n ELSE i - 1] IN [x EXCEPT !.ch = [c \in 1..Len(@) |-> To(@[c])]]]
Case(J) == [N |-> Notes, D |-> Rotate(Doc(J, <<>>, J.root))]

-----------------------------------------------------------------------------
(* values of a size, as tables, by appending entries: Item(T, n) is the    *)
(* set of tables that extend T with a value of n nodes as the last         *)
V(k, s, words, ch) ==
  [k |-> k, s |-> s, w |-> Len(s), raw |-> "", words |-> words, ch |-> ch, ns |-> Plain, ov |-> <<>>]
Leaves == {V("null", "null", <<>>, <<>>), V("str", "a", <<>>, <<>>), V("arr", "", <<>>, <<>>), V("obj", "", <<>>, <<>>)}
Comments == {V("com", "", ws, <<>>) : ws \in {<<>>, <<<<"x", 1>>, <<"yy", 2>>>>}}
RECURSIVE Vals(_, _)
RECURSIVE Lists(_, _, _)
(* [T, ch]: T extended by entries using n nodes in all *)
Lists(T, n, obj) ==
  IF n = 0 THEN {[T |-> T, ch |-> <<>>]}
  ELSE UNION {LET Firsts == IF obj
                            THEN (IF m = 1 THEN {} ELSE {Append(t, V("pair", "k", <<>>, <<Len(t)>>)) : t \in Vals(T, m - 1)})
                            ELSE Vals(T, m)
                  Coms == IF m = 1 THEN {Append(T, c) : c \in Comments} ELSE {}
              IN UNION {{[T |-> r.T, ch |-> <<Len(t)>> \o r.ch] : r \in Lists(t, n - m, obj)} : t \in Firsts \cup Coms}
              : m \in 1..n}
Vals(T, n) ==
  IF n = 1 THEN {Append(T, x) : x \in Leaves}
  ELSE UNION {{Append(r.T, V(IF obj THEN "obj" ELSE "arr", "", <<>>, r.ch)) : r \in Lists(T, n - 1, obj)} : obj \in BOOLEAN}
Roots(n) == {Append(r.T, V("roots", "", <<>>, r.ch)) : r \in Lists(<<>>, n - 1, FALSE)}

Widths == {0, 3, 6, 9, 11, 13, 15, 18, 22}

VARIABLES J, phase
Init == /\ \E n \in 1..Size : \E t \in Vals(<<>>, n) \cup (IF n <= 4 THEN Roots(n) ELSE {}) : \E w \in Widths :
             J = [V |-> t, root |-> Len(t), W |-> w]
        /\ phase = 0
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED J
        /\ IF Export THEN PrintT("EXPORT " \o ToJson(J)) ELSE TRUE

Texts == [r \in 1..Len(Rows(J, <<>>)) |-> Text(Rows(J, <<>>)[r])]
Laid == LET lay == L!LayoutOf(Case(J), J.W, "") IN [r \in 1..Len(lay.rows) |-> L!TextOf(lay.rows[r].segs)]

AsDocumented == phase = 1 => Laid = Texts
(* every place one can focus on is where focusing in the notations is     *)
RECURSIVE PathTo(_, _)
PathTo(at, i) ==   \* <<>> or <<path>>
  IF at = i THEN <<<<>>>>
  ELSE LET ch == J.V[at].ch
           C == {c \in 1..Len(ch) : PathTo(ch[c], i) # <<>>}
       IN IF C = {} THEN <<>>
          ELSE LET c == CHOOSE x \in C : TRUE
               IN <<<<IF J.V[at].k = "pair" THEN 1 ELSE c - 1>> \o PathTo(ch[c], i)[1]>>
Places == phase = 1 =>
  LET lay == L!LayoutOf(Case(J), J.W, "") IN
  \A i \in 1..Len(J.V) :
    LET d == Displayed(J, <<>>, i)
        x == J.V[i]
    IN \A part \in (IF x.k = "pair" THEN {-1, 0} ELSE 0..Len(x.words)), tgt \in {"start", "end", "mark", "text"}, n \in 0..1 :
         LET path == PathTo(J.root, i)[1] \o (IF part = 0 THEN <<>> ELSE <<IF part = -1 THEN 0 ELSE part - 1>>)
             f == L!Focus(lay, path, tgt, n)
             p == Place(J, d, i, part, tgt, n)
         IN IF f.ok THEN p.k = "ok" /\ p.row = f.row /\ p.n = Len(L!TextOf(L!LeftOf(lay.rows[f.row], f)))
            ELSE p.k = f.err.k
ReadsBack == phase = 1 =>
  /\ ReadAll(WithoutComments(Texts), 1, <<>>) = Document(J)
  /\ CommentWords(Texts) = WordsOf(J, J.root)
(* no row is longer than it must be: a row over the width holds a piece    *)
(* that cannot be broken                                                   *)
RECURSIVE CountS(_, _)
CountS(s, c) == IF s = "" THEN 0 ELSE (IF SubSeq(s, 1, 1) = c THEN 1 ELSE 0) + CountS(SubSeq(s, 2, Len(s)), c)
TooLong == phase = 1 => \A r \in 1..Len(Texts) :
  Len(Texts[r]) > J.W => (IsCommentLine(Texts[r]) \/ CountS(Texts[r], "a") + CountS(Texts[r], "n") <= 1)
=============================================================================
