------------------------------ MODULE MC_Panes ------------------------------
(***************************************************************************)
(* All small pane layouts (KIND "trees"), all ways of viewing a small      *)
(* document (KIND "view"), or one with a line that cannot be printed (KIND *)
(* "bad"), and all pairs of dynamic panes (KIND "dyn"):                    *)
(* what is shown covers every cell of every pane at most once and never    *)
(* leaves the pane.  Exported, to be displayed by the real code as well.   *)
(***************************************************************************)
EXTENDS Panes, Json, IOUtils

Kind == IOEnv.KIND
Big == IOEnv.BIG = "1"
Export == IOEnv.EXPORT = "1"

(* ` stands for a character of two columns (replaced when exported).      *)
(* a document of n lines, line i being the i'th text; its focus is on line f *)
Texts == <<"a", "bcd", "e`", "", "ghijk", "l``">>
TextWidth == <<1, 3, 3, 0, 5, 5>>
LinesN == << [k |-> "child", i |-> 0], [k |-> "left"], [k |-> "nl"], [k |-> "cat", a |-> 2, b |-> 3], [k |-> "right"],
             [k |-> "cat", a |-> 4, b |-> 5], [k |-> "fold", a |-> 1, b |-> 6], [k |-> "text"] >>
Nth(s, i) == s[IF i > Len(s) THEN i - Len(s) ELSE i]
LinesD(n, from) ==
  << [n |-> 7, nm |-> "1", t |-> FALSE, s |-> "", w |-> 0, ch |-> [i \in 1..n |-> i + 1], cs |-> <<>>, ns |-> "n1"] >>
  \o [i \in 1..n |-> [n |-> 8, nm |-> ToString(i + 1), t |-> TRUE, s |-> Nth(Texts, from + i - 1),
                      w |-> Nth(TextWidth, from + i - 1), ch |-> <<>>, cs |-> <<>>, ns |-> "n" \o ToString(i + 1)]]
LinesDoc(n, from, f, tgt, fh, ws, wn, sf) ==
  [N |-> LinesN, D |-> LinesD(n, from), path |-> IF f = 0 THEN <<>> ELSE <<f - 1>>, tgt |-> tgt, pos |-> 0,
   fh |-> fh, fd |-> 64, ws |-> ws, wn |-> wn, sf |-> sf]

(* trees are nested records here; a table in cases *)
RECURSIVE Put(_, _)
RECURSIVE PutSubs(_, _)
PutSubs(acc, subs) ==   \* acc = [P, s]
  IF subs = <<>> THEN acc
  ELSE LET P == Put(acc.P, Head(subs).t)
       IN PutSubs([P |-> P, s |-> Append(acc.s, [z |-> Head(subs).z, n |-> Head(subs).n, p |-> Len(P)])], Tail(subs))
Put(P, t) ==
  IF "subs" \in DOMAIN t
  THEN LET r == PutSubs([P |-> P, s |-> <<>>], t.subs) IN Append(r.P, [k |-> t.k, s |-> r.s])
  ELSE IF t.k = "style" THEN LET Q == Put(P, t.t) IN Append(Q, [k |-> "style", st |-> t.st, p |-> Len(Q)])
  ELSE Append(P, t)

Case(t, docs, w, h) ==
  LET P == Put(<<>>, t) IN
  [w |-> w, h |-> h, hmax |-> FALSE, style |-> "W", P |-> P, p0 |-> Len(P), docs |-> docs, wide |-> <<"`">>]

FillP(ch) == [k |-> "fill", ch |-> ch]
DocP(d) == [k |-> "doc", d |-> d]
StyleP(st, t) == [k |-> "style", st |-> st, t |-> t]
Sub(z, n, t) == [z |-> z, n |-> n, t |-> t]
Split(k, subs) == [k |-> k, subs |-> subs]

TreeDocs == << LinesDoc(2, 1, 1, "start", 0, "full", 0, TRUE), LinesDoc(3, 4, 2, "end", 64, "nomore", 4, TRUE) >>
Leaf == {FillP("."), FillP("`"), DocP(1), StyleP("P", DocP(2))}
SubsOf(T) ==
  {Sub("fix", 2, t) : t \in T} \cup {Sub("prop", n, t) : n \in {0, 1, 2}, t \in T}
  \cup {Sub("dyn", 0, t) : t \in {x \in T : x.k = "doc" \/ x.k = "style"}}
Level1 == {Split(k, s) : k \in {"horz", "vert"}, s \in {<<a>> : a \in SubsOf(Leaf)} \cup {<<a, b>> : a, b \in SubsOf(Leaf)}}
Leaf2 == {FillP("."), DocP(2)}
SubsOf2(T) == {Sub("fix", 1, t) : t \in T} \cup {Sub("prop", 1, t) : t \in T} \cup {Sub("dyn", 0, t) : t \in {x \in T : x.k = "doc"}}
Inner == {Split(k, <<a, b>>) : k \in {"horz", "vert"}, a, b \in SubsOf2(Leaf2)}
Wrap(t) == {t, StyleP("Q", t)}
OuterSubs(t) == {Sub("fix", 3, t), Sub("prop", 1, t), Sub("prop", 2, t)}
Level2(t) == {Split(k, s) : k \in {"horz", "vert"},
              s \in {<<a, b>> : a \in OuterSubs(t), b \in {Sub("prop", 1, FillP("o")), Sub("fix", 2, FillP("o")), Sub("dyn", 0, DocP(1))}}
                    \cup {<<b, a>> : a \in OuterSubs(t), b \in {Sub("prop", 1, FillP("o")), Sub("dyn", 0, DocP(1))}}}

VARIABLES c, e
InitTrees ==
  \/ \E t \in Leaf \cup Level1 : \E s \in {<<5, 3>>, <<4, 4>>} \cup (IF Big THEN {<<0, 2>>, <<1, 1>>, <<3, 2>>, <<7, 5>>} ELSE {}) :
       c = Case(t, TreeDocs, s[1], s[2])
  \/ Big /\ \E t \in Inner : \E u \in Level2(t) : \E s \in {<<6, 4>>} : c = Case(u, TreeDocs, s[1], s[2])
InitView ==
  \E n \in 1..(IF Big THEN 6 ELSE 4) : \E f \in 0..n :
  \E h \in 1..(IF Big THEN 7 ELSE 5) : \E fh \in {0, 16, 21, 32, 43, 64} :
  \E x \in IF Big THEN {<<1, "full", 0>>, <<2, "full", 0>>, <<4, "fixed", 2>>, <<6, "nomore", 3>>} ELSE {<<2, "full", 0>>, <<6, "nomore", 3>>} :
  \E tgt \in {"start", "end"} :
    c = Case(Split("horz", <<Sub("fix", 1, FillP(".")), Sub("fix", x[1], DocP(1))>>),
             <<LinesDoc(n, 1, f, tgt, fh, x[2], x[3], TRUE)>>, 1 + x[1], h)
InitDyn ==
  \E n \in 1..3 : \E m \in 1..3 : \E f \in 1..n : \E fh \in {0, 32, 64} :
  \E s \in {<<6, 4>>, <<4, 6>>, <<9, 3>>} \cup (IF Big THEN {<<12, 2>>, <<3, 7>>, <<1, 1>>} ELSE {}) :
  \E k \in {"horz", "vert"} : \E r \in {"", "dfd", "fdd", "dpd"} :
    LET d1 == Sub("dyn", 0, DocP(1))
        d2 == Sub("dyn", 0, StyleP("P", DocP(2)))
        subs == CASE r = "" -> <<d1, d2>>
                  [] r = "dfd" -> <<d1, Sub("fix", 1, FillP("#")), d2>>
                  [] r = "fdd" -> <<Sub("fix", 2, FillP("#")), d1, d2, Sub("prop", 1, FillP("."))>>
                  [] OTHER -> <<d1, Sub("prop", 1, FillP(".")), d2>>
    IN c = Case(Split(k, subs), <<LinesDoc(n, 1, f, "start", fh, "full", 0, TRUE), LinesDoc(m, 5, 1, "end", 32, "nomore", 5, TRUE)>>, s[1], s[2])
(* a line that cannot be printed (its node's notation asks for a child, and *)
(* the node is text), in a pane that shows it or not                       *)
Spoil(doc, b) == [doc EXCEPT !.D[b + 1].n = 1]
InitBad ==
  \E n \in 2..(IF Big THEN 5 ELSE 4) : \E b \in 1..n : \E f \in 0..n : \E tgt \in {"start", "end"} :
  \E h \in 1..(IF Big THEN 5 ELSE 4) : \E fh \in {0, 32, 43, 64} : \E k \in {"doc", "horz", "vert"} :
    LET t == IF k = "doc" THEN DocP(1)
             ELSE Split(k, <<Sub("dyn", 0, DocP(1)), Sub("prop", 1, FillP("."))>>)
    IN /\ f = 0 => tgt = "start"
       /\ c = Case(t, <<Spoil(LinesDoc(n, 1, f, tgt, fh, "full", 0, TRUE), b)>>, 6, h)
Init ==
  /\ e = <<>>
  /\ CASE Kind = "trees" -> InitTrees [] Kind = "view" -> InitView [] Kind = "bad" -> InitBad [] OTHER -> InitDyn
  /\ IF Export THEN PrintT("EXPORT " \o ToJson(c)) ELSE TRUE
Next == e = <<>> /\ (\E x \in {Expected(c)} : e' = x) /\ UNCHANGED c

-----------------------------------------------------------------------------
Cells(r) == {<<r.row, x>> : x \in r.col..(r.col + Cols(r) - 1)}
Inside == e # <<>> => \A i \in 1..Len(e.runs) : \A x \in Cells(e.runs[i]) : x[1] < c.h /\ x[2] < c.w
RECURSIVE TotalCols(_)
TotalCols(s) == IF s = <<>> THEN 0 ELSE Cols(Head(s)) + TotalCols(Tail(s))
AtMostOnce == e # <<>> => TotalCols(e.runs) = Cardinality(UNION {Cells(e.runs[i]) : i \in 1..Len(e.runs)})
NoErrors == e # <<>> /\ Kind # "bad" => ~e.forced /\ ~e.unk
(* the bad line either prevents the display, or is not seen *)
BadSeen == e # <<>> /\ Kind = "bad" => ~e.unk /\ (e.forced => e.errs # {})
(* a proportional subpane of positive weight in the root fills the window *)
FullWindow == e # <<>> =>
  LET r == c.P[c.p0] IN
  r.k \in {"fill", "doc"} /\ ~e.forced => TotalCols(e.runs) = c.w * c.h
FociInside == e # <<>> => \A i \in 1..Len(e.foc) : e.foc[i][1] < c.h
=============================================================================
