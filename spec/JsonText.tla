-------------------------------- MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON with comments: values, how they are displayed at a width, and how  *)
(* displayed text is read back.  Display is stated the way a user would:   *)
(* an array or object is on one line iff it holds no comment and fits,     *)
(* otherwise one entry per line; there are no notations here.              *)
(*                                                                         *)
(* A case J has J.V, a table of nodes: k is one of null true false str num *)
(* arr obj pair com roots; s,w the text (the key of a pair) and its width, *)
(* words the words of a comment <<word, width>>, ch the indices of its     *)
(* entries (a pair's value), ns the node's style, ov its style overrides   *)
(* <<label, color, bold>>.  A style is <<color, bold>>.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Plain == <<"white", FALSE>>
Inside(outer, inner) == <<inner[1], outer[2] \/ inner[2]>>

OfLabel(l) ==
  CASE l = "bold_green" -> <<"green", TRUE>>
    [] l = "magenta" -> <<"magenta", FALSE>>
    [] l = "blue" -> <<"blue", FALSE>>
    [] l = "yellow" -> <<"yellow", FALSE>>
    [] OTHER -> Plain
RECURSIVE Override(_, _)
Override(ov, l) ==
  IF ov = <<>> THEN OfLabel(l)
  ELSE IF Head(ov)[1] = l THEN <<Head(ov)[2], Head(ov)[3]>> ELSE Override(Tail(ov), l)
Look(x, st, l) == Inside(st, Override(x.ov, l))

-----------------------------------------------------------------------------
RECURSIVE HasComment(_, _)
HasComment(J, i) == J.V[i].k = "com" \/ \E c \in 1..Len(J.V[i].ch) : HasComment(J, J.V[i].ch[c])

(* width on one line *)
RECURSIVE FlatW(_, _)
RECURSIVE FlatWs(_, _)
FlatWs(J, ch) ==
  IF ch = <<>> THEN 0 ELSE FlatW(J, Head(ch)) + (IF Len(ch) > 1 THEN 2 ELSE 0) + FlatWs(J, Tail(ch))
FlatW(J, i) ==
  LET x == J.V[i] IN
  CASE x.k = "str" -> x.w + 2
    [] x.k \in {"arr", "obj"} -> 2 + FlatWs(J, x.ch)
    [] x.k = "pair" -> x.w + 2 + 2 + FlatW(J, x.ch[1])
    [] OTHER -> x.w

(* a separator follows an entry iff it is not a comment and neither are    *)
(* all the entries after it                                                *)
NeedsComma(J, ch, n) ==
  /\ J.V[ch[n]].k # "com"
  /\ \E m \in n+1..Len(ch) : J.V[ch[m]].k # "com"

RECURSIVE TextLen(_)
TextLen(ps) == IF ps = <<>> THEN 0 ELSE Len(Head(ps)[1]) + TextLen(Tail(ps))

(* the display so far: finished rows, and pieces and columns of this row,  *)
(* and where things of interest are                                        *)
Put(a, s, w, st) == [a EXCEPT !.cur = Append(@, <<s, st>>), !.col = @ + w]
RECURSIVE PutAll(_, _)
PutAll(a, ps) == IF ps = <<>> THEN a ELSE PutAll(Put(a, Head(ps)[1], Head(ps)[2], Head(ps)[3]), Tail(ps))
Break(a, ind) == PutAll([a EXCEPT !.rows = Append(@, a.cur), !.cur = <<>>, !.col = 0], ind)

(* remember where something is: row, and characters before it.  Things are *)
(* <<"start", i>>, <<"end", i>>, <<"mark", i>> for a node, and "text" and  *)
(* "over" for where the text of a string, number, key or comment word      *)
(* starts and ends: <<"text", i, k>>, where k is 0 or the number of the    *)
(* word.  Only things about the node J.tn are remembered.                  *)
At(J, a, i, what) ==
  IF i # J.tn THEN a ELSE [a EXCEPT !.at = Append(@, [what |-> what, row |-> Len(a.rows) + 1, n |-> TextLen(a.cur)])]

RECURSIVE Words(_, _, _, _, _, _, _, _)
Words(J, i, a, W, k, ws, ind, st) ==
  IF k > Len(ws) THEN a
  ELSE LET w == ws[k]
           b == IF k = 1 THEN a
                ELSE IF a.col + 1 + w[2] <= W THEN Put(a, " ", 1, st) ELSE Break(a, ind)
           \* words keep the comment's boldness and have the comments' colour
           c == Put(At(J, b, i, <<"text", k>>), w[1], w[2], Inside(Inside(st, Plain), OfLabel("yellow")))
       IN Words(J, i, At(J, c, i, <<"over", k>>), W, k + 1, ws, ind, st)

RECURSIVE Show(_, _, _, _, _, _, _, _)
RECURSIVE Show1(_, _, _, _, _, _, _, _)
RECURSIVE ShowFlat(_, _, _, _, _)
RECURSIVE ShowMulti(_, _, _, _, _, _, _)
ShowFlat(J, a, ch, n, st) ==
  IF n > Len(ch) THEN a
  ELSE LET b == IF n > 1 THEN Put(a, ", ", 2, st) ELSE a
       IN ShowFlat(J, Show(J, b, ch[n], 0, <<>>, st, TRUE, 0), ch, n + 1, st)
ShowMulti(J, a, W, ch, n, ind, st) ==
  IF n > Len(ch) THEN a
  ELSE LET comma == NeedsComma(J, ch, n)
           b == Show(J, Break(a, ind), ch[n], W, ind, st, FALSE, IF comma THEN 1 ELSE 0)
           c == IF comma THEN Put(b, ",", 1, st) ELSE b
       IN ShowMulti(J, c, W, ch, n + 1, ind, st)
(* node i displayed after a, at width W, within indentation ind, inside    *)
(* style outer; flat: on this line no matter what; tail: columns of what   *)
(* must follow on the same line                                            *)
Show(J, a, i, W, ind, outer, flat, tail) ==
  At(J, Show1(J, At(J, a, i, <<"start", 0>>), i, W, ind, outer, flat, tail), i, <<"end", 0>>)
Show1(J, a, i, W, ind, outer, flat, tail) ==
  LET x == J.V[i]
      st == IF outer = <<>> THEN x.ns ELSE Inside(outer, x.ns)
      Br(b, open) == LET t == CASE x.k = "arr" -> IF open THEN "[" ELSE "]"
                                [] OTHER -> IF open THEN "{" ELSE "}"
                     IN Put(b, t, 1, Look(x, st, IF open THEN "open" ELSE "close"))
      Mark(b) == At(J, b, i, <<"mark", 0>>)
      Own(b, q) == At(J, Put(At(J, b, i, <<"text", 0>>), x.s, x.w, q), i, <<"over", 0>>)
  IN
  CASE x.k \in {"null", "true", "false"} -> Put(a, x.s, x.w, Look(x, st, "bold_green"))
    [] x.k = "num" -> Own(a, Look(x, st, "blue"))
    [] x.k = "str" -> LET q == Look(x, st, "magenta") IN Put(Own(Put(a, "\"", 1, q), q), "\"", 1, q)
    [] x.k = "pair" ->
         LET q == Inside(Inside(st, Plain), OfLabel("magenta"))
             b == Put(Put(Own(Put(a, "\"", 1, q), q), "\"", 1, q), ": ", 2, st)
         IN Show(J, b, x.ch[1], W, ind, st, flat, tail)
    [] x.k \in {"arr", "obj"} ->
         IF x.ch = <<>> THEN Br(Mark(Br(a, TRUE)), FALSE)
         ELSE IF flat \/ (~HasComment(J, i) /\ a.col + FlatW(J, i) + tail <= W)
         THEN Br(ShowFlat(J, Br(a, TRUE), x.ch, 1, st), FALSE)
         ELSE Br(Break(ShowMulti(J, Br(a, TRUE), W, x.ch, 1, Append(ind, <<"    ", 4, st>>), st), ind), FALSE)
    [] x.k = "com" ->
         LET y == Look(x, st, "yellow")
             b == Put(a, "// ", 3, y)
         IN Words(J, i, IF x.words = <<>> THEN Mark(b) ELSE b, W, 1, x.words, Append(ind, <<"// ", 3, y>>), y)
    [] x.k = "roots" ->
         LET F[n \in 0..Len(x.ch)] ==
               IF n = 0 THEN Mark(a)   \* (only the mark of a document without values is used)
               ELSE Show(J, IF n = 1 THEN a ELSE Break(F[n-1], ind), x.ch[n], W, ind, st, FALSE, 0)
         IN F[Len(x.ch)]

(* all rows of the document, each a sequence of <<text, style>>, and where *)
(* things of node tn are                                                   *)
Displayed(J, rootStyle, tn) ==
  LET a == Show([tn |-> tn] @@ J, [rows |-> <<>>, cur |-> <<>>, col |-> 0, at |-> <<>>], J.root, J.W, <<>>, rootStyle, FALSE, 0)
  IN [rows |-> Append(a.rows, a.cur), at |-> a.at]
Rows(J, rootStyle) == Displayed(J, rootStyle, 0).rows

(* Where a focus is: at the start or end of a node, at the mark between    *)
(* the brackets of an empty array or object (or in an empty comment or     *)
(* document), or before the n-th character of a text.  part: 0 for the     *)
(* node, -1 for the key of a pair, k for the k-th word of a comment.       *)
(* d: what Displayed gave for the node                                     *)
Place(J, d, tn, part, tgt, n) ==
  LET x == J.V[tn]
      OwnText == part # 0 \/ x.k \in {"str", "num"}
      Ok(what, more) == LET E == {e \in 1..Len(d.at) : d.at[e].what = what}
                            y == d.at[CHOOSE e \in E : \A f \in E : e <= f]
                        IN [k |-> "ok", row |-> y.row, n |-> y.n + more]
      T == IF part = -1 THEN 0 ELSE part
  IN
  CASE tgt = "text" /\ OwnText -> LET a == Ok(<<"text", T>>, n)
                                     z == Ok(<<"over", T>>, 0)
                                 IN IF a.n < z.n THEN a ELSE z
    [] tgt = "text" /\ ~OwnText -> [k |-> "MissingText"]
    [] tgt = "mark" ->
         IF part = 0 /\ x.k \in {"arr", "obj", "com", "roots"} /\ x.ch = <<>> /\ x.words = <<>>
         THEN Ok(<<"mark", 0>>, 0) ELSE [k |-> "MissingFocusMark"]
    [] tgt = "start" -> IF part > 0 THEN Ok(<<"text", part>>, 0) ELSE Ok(<<"start", 0>>, 0)
    [] tgt = "end" -> IF part > 0 THEN Ok(<<"over", part>>, 0)
                      ELSE IF part = -1 THEN Ok(<<"over", 0>>, 1) ELSE Ok(<<"end", 0>>, 0)

RECURSIVE Text(_)
Text(ps) == IF ps = <<>> THEN "" ELSE Head(ps)[1] \o Text(Tail(ps))
RECURSIVE Merge(_, _)
Merge(acc, ps) ==
  IF ps = <<>> THEN acc
  ELSE LET x == Head(ps) IN
       IF x[1] = "" THEN Merge(acc, Tail(ps))
       ELSE IF acc # <<>> /\ acc[Len(acc)][2] = x[2]
       THEN Merge([acc EXCEPT ![Len(acc)] = <<@[1] \o x[1], x[2]>>], Tail(ps))
       ELSE Merge(Append(acc, x), Tail(ps))

-----------------------------------------------------------------------------
(* Reading text back.  A value that was read is [k, s, ch]: pairs have key *)
(* s and one child.                                                        *)
Ch(t, p) == IF p > Len(t) THEN "" ELSE SubSeq(t, p, p)
RECURSIVE Ws(_, _)
Ws(t, p) == IF Ch(t, p) \in {" ", "\n"} THEN Ws(t, p + 1) ELSE p
RECURSIVE While(_, _, _)
While(t, p, S) == IF p <= Len(t) /\ Ch(t, p) \in S THEN While(t, p + 1, S) ELSE p
RECURSIVE Quote(_, _)
Quote(t, p) == IF p > Len(t) \/ Ch(t, p) = "\"" THEN p ELSE Quote(t, p + 1)

Bad == [ok |-> FALSE, v |-> [k |-> "bad", s |-> "", ch |-> <<>>], p |-> 0]
Good(k, s, ch, p) == [ok |-> TRUE, v |-> [k |-> k, s |-> s, ch |-> ch], p |-> p]
Word(t, p, s) == IF p + Len(s) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(s) - 1) = s THEN Good(s, "", <<>>, p + Len(s)) ELSE Bad
NumChars == {"0","1","2","3","4","5","6","7","8","9",".","-","+","e","E"}

RECURSIVE Read(_, _)
RECURSIVE ReadItems(_, _, _, _)
ReadPair(t, p) ==
  IF Ch(t, p) # "\"" THEN Bad
  ELSE LET e == Quote(t, p + 1)
           c == Ws(t, e + 1)
       IN IF Ch(t, e) # "\"" \/ Ch(t, c) # ":" THEN Bad
          ELSE LET v == Read(t, Ws(t, c + 1))
               IN IF v.ok THEN Good("pair", SubSeq(t, p + 1, e - 1), <<v.v>>, v.p) ELSE Bad
(* items up to the closing bracket, at least one: strict, no trailing comma *)
ReadItems(t, p, close, acc) ==
  LET x == IF close = "]" THEN Read(t, Ws(t, p)) ELSE ReadPair(t, Ws(t, p)) IN
  IF ~x.ok THEN Bad
  ELSE LET q == Ws(t, x.p)
           items == Append(acc, x.v)
       IN IF Ch(t, q) = "," THEN ReadItems(t, q + 1, close, items)
          ELSE IF Ch(t, q) = close THEN Good(IF close = "]" THEN "arr" ELSE "obj", "", items, q + 1)
          ELSE Bad
Read(t, p) ==
  LET c == Ch(t, p) IN
  CASE c = "\"" -> LET e == Quote(t, p + 1) IN IF Ch(t, e) = "\"" THEN Good("str", SubSeq(t, p + 1, e - 1), <<>>, e + 1) ELSE Bad
    [] c = "n" -> Word(t, p, "null")
    [] c = "t" -> Word(t, p, "true")
    [] c = "f" -> Word(t, p, "false")
    [] c \in NumChars -> LET e == While(t, p, NumChars) IN Good("num", SubSeq(t, p, e - 1), <<>>, e)
    [] c \in {"[", "{"} ->
         LET close == IF c = "[" THEN "]" ELSE "}"
             q == Ws(t, p + 1)
         IN IF Ch(t, q) = close THEN Good(IF c = "[" THEN "arr" ELSE "obj", "", <<>>, q + 1)
            ELSE ReadItems(t, q, close, <<>>)
    [] OTHER -> Bad

(* a sequence of values up to the end of the text; "bad" if it is not that *)
RECURSIVE ReadAll(_, _, _)
ReadAll(t, p, acc) ==
  LET q == Ws(t, p) IN
  IF q > Len(t) THEN acc
  ELSE LET x == Read(t, q) IN
       IF x.ok THEN ReadAll(t, x.p, Append(acc, x.v)) ELSE Append(acc, [k |-> "unreadable", s |-> SubSeq(t, q, Len(t)), ch |-> <<>>])

IsCommentLine(s) == LET p == While(s, 1, {" "}) IN Ch(s, p) = "/" /\ Ch(s, p + 1) = "/"
RECURSIVE WithoutComments(_)
WithoutComments(lines) ==
  IF lines = <<>> THEN ""
  ELSE (IF IsCommentLine(Head(lines)) THEN "" ELSE Head(lines) \o "\n") \o WithoutComments(Tail(lines))

(* the words on comment lines, in order *)
RECURSIVE Split(_, _)
Split(s, p) ==
  LET b == While(s, p, {" "})
      E == {e \in b..Len(s) : Ch(s, e) = " "}
      e == IF E = {} THEN Len(s) + 1 ELSE CHOOSE m \in E : \A x \in E : m <= x
  IN IF b > Len(s) THEN <<>> ELSE <<SubSeq(s, b, e - 1)>> \o Split(s, e)
RECURSIVE CommentWords(_)
CommentWords(lines) ==
  IF lines = <<>> THEN <<>>
  ELSE (IF IsCommentLine(Head(lines)) THEN Split(Head(lines), While(Head(lines), 1, {" "}) + 2) ELSE <<>>)
       \o CommentWords(Tail(lines))

(* what should be read back: the document without its comments *)
RECURSIVE Value(_, _)
RECURSIVE Values(_, _)
Values(J, ch) ==
  IF ch = <<>> THEN <<>>
  ELSE (IF J.V[Head(ch)].k = "com" THEN <<>> ELSE <<Value(J, Head(ch))>>) \o Values(J, Tail(ch))
Value(J, i) ==
  LET x == J.V[i] IN
  [k |-> x.k, s |-> IF x.k \in {"str", "num", "pair"} THEN x.s ELSE "", ch |-> Values(J, x.ch)]
Document(J) ==
  LET x == J.V[J.root] IN
  CASE x.k = "roots" -> Values(J, x.ch) [] x.k = "com" -> <<>> [] OTHER -> <<Value(J, J.root)>>
RECURSIVE WordsOf(_, _)
RECURSIVE WordsOfAll(_, _)
WordsOfAll(J, ch) == IF ch = <<>> THEN <<>> ELSE WordsOf(J, Head(ch)) \o WordsOfAll(J, Tail(ch))
WordsOf(J, i) == [n \in 1..Len(J.V[i].words) |-> J.V[i].words[n][1]] \o WordsOfAll(J, J.V[i].ch)
=============================================================================
