---------------------------- MODULE BasicStyles -----------------------------
(***************************************************************************)
(* The example style: a colour and boldness.  Labels name styles; styles   *)
(* combine from the outside in.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Colors == {"white", "black", "red", "green", "yellow", "blue", "magenta", "cyan"}
Styles == [c : Colors, b : BOOLEAN]
Default == [c |-> "white", b |-> FALSE]

(* the style named by a label; an unknown label names the default *)
Named(s) ==
  IF s \in Colors THEN [c |-> s, b |-> FALSE]
  ELSE IF \E c \in Colors : s = "bold_" \o c THEN [c |-> CHOOSE c \in Colors : s = "bold_" \o c, b |-> TRUE]
  ELSE Default

Combine(outer, inner) == [c |-> inner.c, b |-> outer.b \/ inner.b]

(* the default style changed by operations: a colour, or "bold" *)
RECURSIVE Built(_)
Built(ops) ==
  IF ops = <<>> THEN Default
  ELSE LET x == Built(SubSeq(ops, 1, Len(ops) - 1)) IN
       IF ops[Len(ops)] = "bold" THEN [x EXCEPT !.b = TRUE] ELSE [x EXCEPT !.c = ops[Len(ops)]]

(* A chain of nodes, each showing its child within its styled regions.     *)
(* node: ns its own style, ls the labels of the regions, ov its overrides. *)
Looked(node, label) ==
  LET is == {i \in 1..Len(node.ov) : node.ov[i][1] = label}
  IN IF is = {} THEN Named(label) ELSE node.ov[CHOOSE i \in is : \A j \in is : i <= j][2]
RECURSIVE Regions(_, _, _)
Regions(node, cur, ls) == IF ls = <<>> THEN cur ELSE Regions(node, Combine(cur, Looked(node, Head(ls))), Tail(ls))
RECURSIVE Chain(_, _)
Chain(cur, nodes) ==
  IF nodes = <<>> THEN cur ELSE Chain(Regions(Head(nodes), Combine(cur, Head(nodes).ns), Head(nodes).ls), Tail(nodes))
Shown(root, nodes) ==   \* root: <<>> or <<style>>
  Chain(IF root = <<>> THEN Regions(Head(nodes), Head(nodes).ns, Head(nodes).ls)
        ELSE Regions(Head(nodes), Combine(root[1], Head(nodes).ns), Head(nodes).ls), Tail(nodes))
=============================================================================
