------------------------------ MODULE Printer ------------------------------
(***************************************************************************)
(* The lazy printer as a state machine, at the level of its blocks: the    *)
(* document is kept as blocks separated by newlines, above and below the   *)
(* focus; a block holds text already laid out and chunks still to be laid  *)
(* out, and only blocks that are printed (or searched) are resolved.       *)
(*                                                                         *)
(* The state p:                                                            *)
(*   prev, next  sequences of blocks; the last one is nearest the focus    *)
(*   open        document nodes whose notation has been looked into        *)
(*   n           number of notation nodes looked at                        *)
(*   err         the error met ("" = none)                                 *)
(* A block: segs (segments laid out), len (their width), eol (end-of-line  *)
(* marker just read?), chunks (leftmost last; each [d, e] = document node  *)
(* and evaluated notation).                                                *)
(*                                                                         *)
(* MC_Printer checks that this machine refines Layout: whatever the focus  *)
(* and the order of requests, its lines are Layout's rows.                 *)
(***************************************************************************)
EXTENDS Layout

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

NewBlock(ind, chunks) == [segs |-> ind, len |-> SumW(ind), eol |-> FALSE, chunks |-> chunks]
PInit == [prev |-> <<>>, next |-> <<NewBlock(<<>>, <<>>)>>, open |-> {}, n |-> 0, err |-> NoErr]

(* Look into a thunk. *)
Look(C, p, t) ==
  LET e == Eval(C, t)
      q == [p EXCEPT !.open = @ \cup {t.d}, !.n = @ + 1]
  IN [p |-> IF e.k = "err" /\ q.err = NoErr THEN [q EXCEPT !.err = e.err] ELSE q,
      c |-> [d |-> t.d, e |-> IF e.k = "err" THEN [k |-> "empty"] ELSE e]]

Keeps == {"txt", "cho", "child", "eol", "mark"}

(* Expand chunks onto a block, keeping the first line of them in the block. *)
RECURSIVE ExpFirst(_, _, _, _)
ExpFirst(C, p, b, stack) ==
  IF stack = <<>> THEN [p |-> p, b |-> b]
  ELSE LET c == Last(stack)
           rest == Front(stack)
       IN
       CASE c.e.k \in Keeps -> ExpFirst(C, p, [b EXCEPT !.chunks = Append(@, c)], rest)
         [] c.e.k = "nl" -> ExpFirst(C, [p EXCEPT !.next = Append(@, NewBlock(c.e.ind, b.chunks))],
                                     [b EXCEPT !.chunks = <<>>], rest)
         [] c.e.k = "cat" -> LET x == Look(C, p, c.e.a)
                                 y == Look(C, x.p, c.e.b)
                             IN ExpFirst(C, y.p, b, rest \o <<x.c, y.c>>)
         [] OTHER -> ExpFirst(C, p, b, rest)

Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* Expand chunks before a block's chunks, keeping the last line of them in the block. *)
RECURSIVE ExpLast(_, _, _, _, _)
ExpLast(C, p, b, stack, acc) ==
  IF stack = <<>> THEN [p |-> p, b |-> [b EXCEPT !.chunks = @ \o Reversed(acc)]]
  ELSE LET c == Last(stack)
           rest == Front(stack)
       IN
       CASE c.e.k \in Keeps -> ExpLast(C, p, b, rest, Append(acc, c))
         [] c.e.k = "nl" -> ExpLast(C, [p EXCEPT !.prev = Append(@, [b EXCEPT !.chunks = Reversed(acc)])],
                                    NewBlock(c.e.ind, b.chunks), rest, <<>>)
         [] c.e.k = "cat" -> LET x == Look(C, p, c.e.b)
                                 y == Look(C, x.p, c.e.a)
                             IN ExpLast(C, y.p, b, rest \o <<x.c, y.c>>, acc)
         [] OTHER -> ExpLast(C, p, b, rest, acc)

(* Does the rest of the first line fit? items: chunks (evaluated) and thunks, leftmost last. *)
RECURSIVE PFits(_, _, _, _, _)
PFits(C, p, rem, eol, items) ==
  IF items = <<>> THEN [p |-> p, r |-> TRUE]
  ELSE LET it == Last(items)
           rest == Front(items)
           x == IF "e" \in DOMAIN it THEN [p |-> p, c |-> it] ELSE Look(C, p, it)
           e == x.c.e
       IN
       CASE e.k = "txt" -> IF eol \/ e.w > rem THEN [p |-> x.p, r |-> FALSE] ELSE PFits(C, x.p, rem - e.w, eol, rest)
         [] e.k = "eol" -> PFits(C, x.p, rem, TRUE, rest)
         [] e.k = "nl" -> [p |-> x.p, r |-> TRUE]
         [] e.k = "child" -> PFits(C, x.p, rem, eol, Append(rest, e.t))
         [] e.k = "cat" -> PFits(C, x.p, rem, eol, rest \o <<e.b, e.a>>)
         [] e.k = "cho" -> PFits(C, x.p, rem, eol, Append(rest, e.b))
         [] OTHER -> PFits(C, x.p, rem, eol, rest)

Choose(C, W, p, b, c) ==
  LET x == Look(C, p, c.e.a)
      f == IF b.len > W THEN [p |-> x.p, r |-> FALSE]
           ELSE PFits(C, x.p, W - b.len, b.eol, Append(b.chunks, x.c))
  IN IF f.r THEN [p |-> f.p, c |-> x.c] ELSE Look(C, f.p, c.e.b)

PushText(p, b, c) ==
  IF b.eol THEN [p |-> IF p.err = NoErr THEN [p EXCEPT !.err = [k |-> "TextAfterEndOfLine", i |-> 0, n |-> 0]] ELSE p, b |-> b]
  ELSE [p |-> p, b |-> [b EXCEPT !.segs = Append(@, <<c.e.s, c.e.w, c.e.st>>), !.len = @ + c.e.w]]

(* One step on the leftmost chunk of a block. first: keep the first line of what it expands to, else the last. *)
Resolve(C, W, p, b, first) ==
  LET c == Last(b.chunks)
      b1 == [b EXCEPT !.chunks = Front(@)]
      Expand(q, d) == IF first THEN ExpFirst(C, q, b1, <<d>>) ELSE ExpLast(C, q, b1, <<d>>, <<>>)
  IN
  CASE c.e.k = "mark" -> [p |-> p, b |-> b1]
    [] c.e.k = "eol" -> [p |-> p, b |-> [b1 EXCEPT !.eol = TRUE]]
    [] c.e.k = "txt" -> PushText(p, b1, c)
    [] c.e.k = "child" -> LET x == Look(C, p, c.e.t) IN Expand(x.p, x.c)
    [] c.e.k = "cho" -> LET x == Choose(C, W, p, b1, c) IN Expand(x.p, x.c)

RECURSIVE PrintBlock(_, _, _, _, _)
PrintBlock(C, W, p, b, first) ==
  IF p.err # NoErr \/ b.chunks = <<>> THEN [p |-> p, line |-> b.segs]
  ELSE LET x == Resolve(C, W, p, b, first) IN PrintBlock(C, W, x.p, x.b, first)

(* The two requests of a session; line is <<>> and none TRUE at the end of the document. *)
PrintNext(C, W, p) ==
  IF p.next = <<>> THEN [p |-> p, line |-> <<>>, none |-> TRUE]
  ELSE LET x == PrintBlock(C, W, [p EXCEPT !.next = Front(@)], Last(p.next), TRUE)
       IN [p |-> x.p, line |-> x.line, none |-> FALSE]
PrintPrev(C, W, p) ==
  IF p.prev = <<>> THEN [p |-> p, line |-> <<>>, none |-> TRUE]
  ELSE LET x == PrintBlock(C, W, [p EXCEPT !.prev = Front(@)], Last(p.prev), FALSE)
       IN [p |-> x.p, line |-> x.line, none |-> FALSE]

-----------------------------------------------------------------------------
(* Seeking. Each returns [p, c] (c: the chunk to expand at the focus) or sets p.err. *)
Failed(p, k, i) == IF p.err = NoErr THEN [p EXCEPT !.err = [k |-> k, i |-> i, n |-> 0]] ELSE p
NoChunk == [d |-> 0, e |-> [k |-> "empty"]]

StartAt(C, p, c) ==   \* expand c at the focus, focus before it
  LET x == ExpFirst(C, [p EXCEPT !.next = Front(@)], Last(p.next), <<c>>)
  IN [x.p EXCEPT !.next = Append(@, x.b)]

Relevant(b, d, i) ==
  \E x \in 1..Len(b.chunks) : b.chunks[x].d = d /\
     (b.chunks[x].e.k = "cho" \/ (b.chunks[x].e.k = "child" /\ b.chunks[x].e.i = i))

RECURSIVE Forward(_, _, _), FindChild(_, _, _, _, _, _), SeekLoop(_, _, _, _, _)
Forward(p, d, i) ==
  IF p.next = <<>> \/ Relevant(Last(p.next), d, i) THEN p
  ELSE Forward([p EXCEPT !.prev = Append(@, Last(p.next)), !.next = Front(@)], d, i)
(* resolve chunks until the child is found or something was expanded *)
FindChild(C, W, p, b, d, i) ==
  IF p.err # NoErr THEN [p |-> p, c |-> NoChunk, found |-> TRUE]
  ELSE IF b.chunks = <<>> THEN [p |-> p, c |-> NoChunk, found |-> FALSE]
  ELSE LET c == Last(b.chunks) IN
       IF c.e.k = "child" /\ c.d = d /\ c.e.i = i
       THEN LET x == Look(C, [p EXCEPT !.next = Append(@, [b EXCEPT !.chunks = Front(@)])], c.e.t)
            IN [p |-> x.p, c |-> x.c, found |-> TRUE]
       ELSE LET x == Resolve(C, W, p, b, TRUE) IN
            IF c.e.k \in {"child", "cho"}
            THEN [p |-> [x.p EXCEPT !.next = Append(@, x.b)], c |-> NoChunk, found |-> FALSE]
            ELSE FindChild(C, W, x.p, x.b, d, i)
SeekLoop(C, W, p0, d, i) ==
  LET p == Forward(p0, d, i) IN
  IF p.next = <<>> THEN [p |-> Failed(p, "InvalidPath", i), c |-> NoChunk]
  ELSE LET x == FindChild(C, W, [p EXCEPT !.next = Front(@)], Last(p.next), d, i) IN
       IF x.found THEN [p |-> x.p, c |-> x.c] ELSE SeekLoop(C, W, x.p, d, i)
SeekChild(C, W, p, c, i) == SeekLoop(C, W, StartAt(C, p, c), c.d, i)

RECURSIVE SeekPath(_, _, _, _, _)
SeekPath(C, W, p, c, path) ==
  IF path = <<>> \/ p.err # NoErr THEN [p |-> p, c |-> c]
  ELSE LET x == SeekChild(C, W, p, c, path[1]) IN SeekPath(C, W, x.p, x.c, Tail(path))

RECURSIVE EndLoop(_, _, _, _, _)
EndLoop(C, W, p, b, m) ==
  IF p.err # NoErr \/ Len(b.chunks) <= m THEN [p EXCEPT !.next = Append(@, b)]
  ELSE LET x == Resolve(C, W, p, b, FALSE) IN EndLoop(C, W, x.p, x.b, m)
SeekEnd(C, W, p, c) ==
  LET b == Last(p.next)
      x == ExpLast(C, [p EXCEPT !.next = Front(@)], b, <<c>>, <<>>)
  IN EndLoop(C, W, x.p, x.b, Len(b.chunks))

(* walk forward to the first mark (or own text) of node d *)
RECURSIVE WalkTo(_, _, _, _, _)
WalkTo(C, W, p, d, tgt) ==
  IF p.err # NoErr THEN p
  ELSE IF p.next = <<>> THEN Failed(p, IF tgt = "mark" THEN "MissingFocusMark" ELSE "MissingText", 0)
  ELSE LET b == Last(p.next)
           q == [p EXCEPT !.next = Front(@)]
       IN
       IF b.chunks = <<>> THEN WalkTo(C, W, [q EXCEPT !.prev = Append(@, b)], d, tgt)
       ELSE LET c == Last(b.chunks) IN
            IF c.d = d /\ tgt = "mark" /\ c.e.k = "mark"
            THEN [q EXCEPT !.next = Append(@, [b EXCEPT !.chunks = Front(@)])]
            ELSE IF c.d = d /\ tgt = "text" /\ c.e.k = "txt" /\ c.e.own THEN p
            ELSE LET x == Resolve(C, W, q, b, TRUE) IN WalkTo(C, W, [x.p EXCEPT !.next = Append(@, x.b)], d, tgt)

(* focus before the pos'th character of the text at the focus *)
SplitText(p, pos) ==
  IF p.err # NoErr THEN p
  ELSE LET b == Last(p.next)
           c == Last(b.chunks)
           k == IF pos > Len(c.e.s) THEN Len(c.e.s) ELSE pos
           l == [c EXCEPT !.e.s = SubSeq(@, 1, k), !.e.w = 0]
           r == [c EXCEPT !.e.s = SubSeq(@, k + 1, Len(@))]
           y == PushText([p EXCEPT !.next = Front(@)], [b EXCEPT !.chunks = Append(Front(@), r)], l)
       IN [y.p EXCEPT !.next = Append(@, y.b)]

(* the whole of pretty_print: focus, then the focused line *)
POpen(C, W, rootStyle, path, tgt, pos) ==
  LET x == Look(C, PInit, RootThunk(C, rootStyle))
      y == SeekPath(C, W, x.p, x.c, path)
      z == IF y.p.err # NoErr THEN y.p
           ELSE CASE tgt = "start" -> StartAt(C, y.p, y.c)
                  [] tgt = "end" -> SeekEnd(C, W, y.p, y.c)
                  [] tgt = "mark" -> WalkTo(C, W, StartAt(C, y.p, y.c), y.c.d, "mark")
                  [] tgt = "text" -> SplitText(WalkTo(C, W, StartAt(C, y.p, y.c), y.c.d, "text"), pos)
  IN IF z.err # NoErr THEN [p |-> z, line |-> <<>>, left |-> <<>>]
     ELSE LET f == PrintNext(C, W, z)
          IN [p |-> f.p, line |-> f.line, left |-> Last(z.next).segs]
=============================================================================
