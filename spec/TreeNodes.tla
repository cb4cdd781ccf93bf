----------------------------- MODULE TreeNodes ------------------------------
(***************************************************************************)
(* The state machine of document tree nodes (doc_examples::Tree): threads  *)
(* with an id counter each, and nodes (values) built from other nodes.     *)
(* A node is [id, note, txt (is it text?), s, ch (nodes), com, sep, ns,    *)
(* ov]; styles are strings; ov is the sequence of <<label, style>> added.  *)
(* Operations, by thread t, make a new node h:                             *)
(*   <<"text", t, h, note, s>>         <<"branch", t, h, note, sources>>   *)
(*   <<"comment", t, h, source>>       <<"style", t, h, source, style>>    *)
(*   <<"over", t, h, source, label, style>>     or    <<"reset", t>>       *)
(*   or    <<"skip", t, n>>   (n nodes are made and dropped)               *)
(* Sources stay as they were: they can be used again.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fresh(id, note, txt, s, ch) ==
  [id |-> id, note |-> note, txt |-> txt, s |-> s, ch |-> ch, com |-> FALSE, sep |-> FALSE, ns |-> "-", ov |-> <<>>]

(* A child needs a separator iff it is not a comment and some later        *)
(* sibling is not a comment either.                                        *)
Separated(ch) ==
  [i \in 1..Len(ch) |-> [ch[i] EXCEPT !.sep = ~ch[i].com /\ \E j \in i+1..Len(ch) : ~ch[j].com]]

NodeOp(op) == op[1] \notin {"reset", "skip"}
Creates(op) == op[1] \in {"text", "branch"}

(* the node that op makes, in state (cnt, heap) *)
Made(cnt, heap, op) ==
  CASE op[1] = "text"    -> Fresh(cnt[op[2]], op[4], TRUE, op[5], <<>>)
    [] op[1] = "branch"  -> Fresh(cnt[op[2]], op[4], FALSE, "", Separated([i \in 1..Len(op[5]) |-> heap[op[5][i]]]))
    [] op[1] = "comment" -> [heap[op[4]] EXCEPT !.com = TRUE]
    [] op[1] = "style"   -> [heap[op[4]] EXCEPT !.ns = op[5]]
    [] op[1] = "over"    -> [heap[op[4]] EXCEPT !.ov = Append(@, <<op[5], op[6]>>)]

Heap(cnt, heap, op) == IF ~NodeOp(op) THEN heap ELSE (op[3] :> Made(cnt, heap, op)) @@ heap
Counters(cnt, op) ==
  IF op[1] = "reset" THEN [cnt EXCEPT ![op[2]] = 0]
  ELSE IF op[1] = "skip" THEN [cnt EXCEPT ![op[2]] = @ + op[3]]
  ELSE IF Creates(op) THEN [cnt EXCEPT ![op[2]] = @ + 1] ELSE cnt

(* how the printer sees a node *)
RECURSIVE FirstMatch(_, _)
FirstMatch(ov, l) == IF ov = <<>> THEN "@" \o l ELSE IF Head(ov)[1] = l THEN Head(ov)[2] ELSE FirstMatch(Tail(ov), l)
RECURSIVE View(_, _)
View(x, labels) ==
  [id |-> x.id, note |-> x.note, num |-> IF x.txt THEN -1 ELSE Len(x.ch), s |-> x.s, ns |-> x.ns,
   conds |-> <<x.txt /\ x.s = "", x.sep, x.com>>,
   look |-> [i \in 1..Len(labels) |-> FirstMatch(x.ov, labels[i])],
   ch |-> [i \in 1..Len(x.ch) |-> View(x.ch[i], labels)]]
=============================================================================
