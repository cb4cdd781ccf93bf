----------------------------- MODULE PPNotation -----------------------------
(***************************************************************************)
(* Documents and their notations, and the meaning of one notation node.    *)
(*                                                                         *)
(* A case C is a record with                                               *)
(*   C.N : sequence of notation nodes (a table; children are indices)      *)
(*   C.D : sequence of document nodes (a table; node 1 is the root)        *)
(* A notation node has a kind k and the fields that kind needs:            *)
(*   empty nl eol mark text left right                                     *)
(*   lit(s,w)  child(i)  flat(a)  indent(s,w,l,a)  style(l,a)              *)
(*   cat(a,b)  cho(a,b)  check(q,cp,i,a,b)  count(a,b,c)  fold(a,b)        *)
(* where s is a string and w its width in columns, l a style label, q a    *)
(* condition, cp the node it is checked on, i a (signed) child index.      *)
(* A document node has n (root of its notation in C.N), nm (its name), t   *)
(* (contains text?), s,w (the text, its width), ch (children), cs (the     *)
(* conditions true of it), ns (its node style).                            *)
(*                                                                         *)
(* Styles are elements of a free monoid, written as strings, so that every *)
(* omission, duplication or reordering is visible.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Comb(outer, inner) == outer \o "." \o inner
LabelStyle(C, l, d) == l \o "@" \o C.D[d].nm

NoJoin == [i |-> 0]

(* A thunk: notation node n of document node d, in a context: inside a     *)
(* flat region? (fl), enclosing indentation (ind, outermost first), style  *)
(* in force (st), position inside a fold's join (jp: fold's node p, 1-based*)
(* index i of the child being added, the fold's first and join notations). *)
Thunk(n, d, fl, ind, st, jp) ==
  [n |-> n, d |-> d, fl |-> fl, ind |-> ind, st |-> st, jp |-> jp]

RootThunk(C, rootStyle) ==
  Thunk(C.D[1].n, 1, FALSE, <<>>,
        IF rootStyle = "" THEN C.D[1].ns ELSE Comb(rootStyle, C.D[1].ns), NoJoin)

(* Negative indices count from the end. 0 means out of range; results are  *)
(* 1-based positions.                                                      *)
ChildPos(i, n) == LET j == IF i < 0 THEN i + n ELSE i
                  IN  IF j < 0 \/ j >= n THEN 0 ELSE j + 1

Err(k, i, n) == [k |-> "err", err |-> [k |-> k, i |-> i, n |-> n]]

HasCond(C, d, q) == \E x \in 1..Len(C.D[d].cs) : C.D[d].cs[x] = q

(* Head normal form of a thunk: one of                                     *)
(*   empty eol mark nl(ind) txt(s,w,st,own,d) cat(a,b) cho(a,b)            *)
(*   child(i,p,t) err(err)                                                 *)
(* i is the 0-based index under which document node p shows the child.     *)
RECURSIVE Eval(_, _)
Eval(C, t) ==
  LET x == C.N[t.n]
      k == x.k
      d == t.d
      D == C.D[d]
      With(n) == [t EXCEPT !.n = n]
  IN
  CASE k = "lit"   -> [k |-> "txt", s |-> x.s, w |-> x.w, st |-> t.st, own |-> FALSE, d |-> d]
    [] k = "cat"   -> [k |-> "cat", a |-> With(x.a), b |-> With(x.b)]
    [] k = "empty" -> [k |-> "empty"]
    [] k = "nl"    -> [k |-> "nl", ind |-> t.ind]
    [] k = "eol"   -> [k |-> "eol"]
    [] k = "mark"  -> [k |-> "mark", d |-> d]
    [] k = "text"  -> IF D.t
                      THEN [k |-> "txt", s |-> D.s, w |-> D.w, st |-> t.st, own |-> TRUE, d |-> d]
                      ELSE Err("TextNotationOnTextlessDoc", 0, 0)
    [] k = "flat"  -> Eval(C, [t EXCEPT !.n = x.a, !.fl = TRUE])
    [] k = "indent" ->
         LET st == IF x.l = "" THEN t.st ELSE Comb(t.st, LabelStyle(C, x.l, d))
         IN  Eval(C, [t EXCEPT !.n = x.a, !.ind = Append(@, <<x.s, x.w, st>>)])
    [] k = "style" -> Eval(C, [t EXCEPT !.n = x.a, !.st = Comb(@, LabelStyle(C, x.l, d))])
    [] k = "cho"   -> IF t.fl THEN Eval(C, With(x.a))
                      ELSE [k |-> "cho", a |-> With(x.a), b |-> With(x.b)]
    [] k = "child" ->
         IF D.t THEN Err("ChildNotationOnChildlessDoc", 0, 0)
         ELSE LET p == ChildPos(x.i, Len(D.ch)) IN
              IF p = 0 THEN Err("ChildIndexOutOfBounds", x.i, Len(D.ch))
              ELSE LET c == D.ch[p] IN
                   [k |-> "child", i |-> p - 1, p |-> d,
                    t |-> [t EXCEPT !.n = C.D[c].n, !.d = c, !.st = Comb(@, C.D[c].ns), !.jp = NoJoin]]
    [] k = "check" ->
         LET Go(e) == Eval(C, With(IF HasCond(C, e, x.q) THEN x.a ELSE x.b)) IN
         (CASE x.cp = "here"  -> Go(d)
           [] x.cp = "child" ->
                IF D.t THEN Err("CheckPosChildOnChildlessDoc", 0, 0)
                ELSE LET p == ChildPos(x.i, Len(D.ch)) IN
                     IF p = 0 THEN Err("CheckPosChildIndexOutOfBounds", x.i, Len(D.ch))
                     ELSE Go(D.ch[p])
           [] x.cp = "right" -> Go(C.D[t.jp.p].ch[t.jp.i])
           [] x.cp = "left"  -> Go(C.D[t.jp.p].ch[t.jp.i - 1]))
    [] k = "count" ->
         IF D.t THEN Err("CountNotationOnChildlessDoc", 0, 0)
         ELSE Eval(C, With(IF D.ch = <<>> THEN x.a ELSE IF Len(D.ch) = 1 THEN x.b ELSE x.c))
    [] k = "fold" ->
         IF D.t THEN Err("FoldOnText", 0, 0)
         ELSE IF D.ch = <<>> THEN [k |-> "empty"]
         ELSE IF Len(D.ch) = 1 THEN Eval(C, With(x.a))
         ELSE Eval(C, [t EXCEPT !.n = x.b,
                                !.jp = [p |-> d, i |-> Len(D.ch), f |-> x.a, j |-> x.b]])
    [] k = "left" ->
         IF t.jp.i = 2 THEN Eval(C, [t EXCEPT !.n = t.jp.f, !.jp = NoJoin])
         ELSE Eval(C, [t EXCEPT !.n = t.jp.j, !.jp.i = @ - 1])
    [] k = "right" ->
         LET c == C.D[t.jp.p].ch[t.jp.i] IN
         [k |-> "child", i |-> t.jp.i - 1, p |-> d,
          t |-> [t EXCEPT !.n = C.D[c].n, !.d = c, !.st = Comb(@, C.D[c].ns), !.jp = NoJoin]]

(* All errors some layout of the document could run into: the errors of   *)
(* every reachable (notation, node, fold position), over both options of   *)
(* every choice.                                                           *)
Bare(t) == [n |-> t.n, d |-> t.d, jp |-> t.jp]
Full(b) == Thunk(b.n, b.d, FALSE, <<>>, "", b.jp)
Below(C, b) ==
  LET e == Eval(C, Full(b)) IN
  CASE e.k = "cat" \/ e.k = "cho" -> {Bare(e.a), Bare(e.b)}
    [] e.k = "child" -> {Bare(e.t)}
    [] OTHER -> {}
RECURSIVE Reach(_, _, _)
Reach(C, seen, new) ==
  IF new = {} THEN seen
  ELSE LET s == seen \cup new IN Reach(C, s, (UNION {Below(C, b) : b \in new}) \ s)
ErrSet(C) ==
  {Eval(C, Full(b)).err : b \in {x \in Reach(C, {}, {Bare(RootThunk(C, ""))}) : Eval(C, Full(x)).k = "err"}}
=============================================================================
