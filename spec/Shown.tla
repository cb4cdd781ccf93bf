------------------------------- MODULE Shown --------------------------------
(***************************************************************************)
(* What is shown to people: notations, positions, sizes and errors.        *)
(* Sym gives the three symbols that are not ASCII (empty, nl, arrow).      *)
(***************************************************************************)
EXTENDS Shorthand

(* the display of a notation, given as a term *)
RECURSIVE Show(_, _)
Show(t, Sym) ==
  LET A == Show(t.a, Sym)
      B == Show(t.b, Sym)
      Quote(s) == "\"" \o s \o "\""
      Place == CASE t.cp = "here" -> "Here"
                 [] t.cp = "child" -> "Child(" \o ToString(t.i) \o ")"
                 [] t.cp = "left" -> "LeftChild"
                 [] OTHER -> "RightChild"
  IN
  CASE t.k = "empty" -> Sym.empty
    [] t.k = "nl" -> Sym.nl
    [] t.k = "eol" -> "EOL"
    [] t.k = "mark" -> "MARK"
    [] t.k = "text" -> "TEXT"
    [] t.k = "left" -> "$Left"
    [] t.k = "right" -> "$Right"
    [] t.k = "lit" -> "'" \o t.s \o "'"
    [] t.k = "child" -> "$" \o ToString(t.i)
    [] t.k = "cat" -> A \o " + " \o B
    [] t.k = "cho" -> "(" \o A \o " | " \o B \o ")"
    [] t.k = "flat" -> "Flat(" \o A \o ")"
    [] t.k = "indent" -> "'" \o t.s \o "'" \o Sym.arrow \o "(" \o A \o ")"
    [] t.k = "style" -> "Style(" \o Quote(t.l) \o ", " \o A \o ")"
    [] t.k = "check" -> "(" \o Quote(t.q) \o "@" \o Place \o " ? " \o A \o " | " \o B \o ")"
    [] t.k = "count" -> "Count(zero=" \o A \o ", one=" \o B \o ", many=" \o Show(t.c, Sym) \o ")"
    [] t.k = "fold" -> "Fold(first=" \o A \o ", join=" \o B \o ")"

(***************************************************************************)
(* Errors.  How they are worded is not specified, only what their messages *)
(* say: the words that name the constructs, the numbers the error carries  *)
(* (in this order), and the message of the error it wraps.                 *)
(***************************************************************************)
Words(v) ==
  CASE v = "InvalidPath" -> <<"path">>
    [] v = "TextNotationOnTextlessDoc" -> <<"Text">>
    [] v = "ChildIndexOutOfBounds" -> <<"Child">>
    [] v = "ChildNotationOnChildlessDoc" -> <<"Child">>
    [] v = "CheckPosChildIndexOutOfBounds" -> <<"CheckPos">>
    [] v = "CheckPosChildOnChildlessDoc" -> <<"CheckPos">>
    [] v = "CountNotationOnChildlessDoc" -> <<"Count">>
    [] v = "NumChildrenChanged" -> <<"num_children">>
    [] v = "TextAfterEndOfLine" -> <<"EndOfLine">>
    [] v = "MissingFocusMark" -> <<"FocusMark">>
    [] v = "MissingText" -> <<"Text">>
    [] v = "LeftOutsideJoin" -> <<"Left", "join">>
    [] v = "RightOutsideJoin" -> <<"Right", "join">>
    [] v = "CheckPosLeftOutsideJoin" -> <<"CheckPos", "LeftChild", "join">>
    [] v = "CheckPosRightOutsideJoin" -> <<"CheckPos", "RightChild", "join">>
    [] v = "NestedFold" -> <<"Fold">>
    [] v = "NestedCount" -> <<"Count">>
    [] v = "CountZeroChild" -> <<"Child", "Count.zero">>
    [] v = "CountOneChildIndex" -> <<"Child", "Count.one">>
    [] v = "CountZeroCheckPosChild" -> <<"CheckPos", "Count.zero">>
    [] v = "CountOneCheckPosChildIndex" -> <<"CheckPos", "Count.one">>
    [] v = "TextInsideCount" -> <<"Text", "Count">>
    [] v = "TextInsideFold" -> <<"Text", "Fold">>
    [] v = "TextAfterEol" -> <<"EndOfLine">>
    [] v = "MultipleFocusMarks" -> <<"FocusMark">>
    [] OTHER -> <<>>

Has(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
(* the numbers in a message: maximal runs of digits, with a minus sign before them *)
RECURSIVE NumbersFrom(_, _, _, _)
NumbersFrom(s, i, cur, acc) ==
  LET Flush == IF cur \in {"", "-"} THEN acc ELSE Append(acc, cur) IN
  IF i > Len(s) THEN Flush
  ELSE LET c == SubSeq(s, i, i) IN
       IF c \in Digits THEN NumbersFrom(s, i + 1, cur \o c, acc)
       ELSE NumbersFrom(s, i + 1, IF c = "-" THEN "-" ELSE "", Flush)
Numbers(s) == NumbersFrom(s, 1, "", <<>>)

(* what is wrong with the message of an error of kind v *)
Message(v, nums, inner, msg) ==
  LET ws == Words(v) IN
  IF \E i \in 1..Len(ws) : ~Has(msg, ws[i]) THEN "the message does not name what is wrong: " \o msg
  ELSE IF inner = "" /\ Numbers(msg) # nums THEN "the message should mention " \o ToString(nums) \o ": " \o msg
  ELSE IF inner # "" /\ ~Has(msg, inner) THEN "the message leaves out that of the error inside: " \o msg
  ELSE ""
=============================================================================
