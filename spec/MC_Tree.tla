------------------------------ MODULE MC_Tree -------------------------------
(***************************************************************************)
(* All short sequences of node operations by two threads; exported to be   *)
(* performed on the real tree nodes.                                       *)
(***************************************************************************)
EXTENDS TreeNodes, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Export == IOEnv.EXPORT = "1"
Threads == 1..2
VARIABLES cnt, heap, hist, era   \* era: ids handed out by each thread since its last reset
Init == cnt = [t \in Threads |-> 0] /\ heap = << >> /\ hist = <<>> /\ era = [t \in Threads |-> <<>>]

Handles == DOMAIN heap
Do(op) ==
  /\ heap' = Heap(cnt, heap, op)
  /\ cnt' = Counters(cnt, op)
  /\ hist' = Append(hist, op)
  /\ era' = IF op[1] = "reset" THEN [era EXCEPT ![op[2]] = <<>>]
            ELSE IF Creates(op) THEN [era EXCEPT ![op[2]] = Append(@, heap'[op[3]].id)] ELSE era
  /\ IF Export /\ Len(hist') = Depth THEN PrintT("EXPORT " \o ToJson(hist')) ELSE TRUE
h == Len(hist) + 1
(* the second thread only makes texts, resets and branches of everything *)
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E t \in Threads : Do(<<"text", t, h, 1, IF h = 1 THEN "" ELSE "a">>)
     \/ \E t \in Threads : Handles # {} /\ cnt[t] > 0 /\ Do(<<"reset", t>>)
     \/ \E t \in Threads : Do(<<"branch", t, h, 2, [i \in 1..Cardinality(Handles) |-> CHOOSE x \in Handles : Cardinality({y \in Handles : y < x}) = i - 1]>>)
     \/ \E a, b \in Handles : Do(<<"branch", 1, h, 2, <<a, b>>>>)
     \/ \E a \in Handles : ~heap[a].com /\ Do(<<"comment", 1, h, a>>)
     \/ \E a \in Handles : heap[a].ns = "-" /\ Do(<<"style", 1, h, a, "S">>)
     \/ \E a \in Handles : Len(heap[a].ov) < 2 /\ Do(<<"over", 1, h, a, "l", IF heap[a].ov = <<>> THEN "O" ELSE "P">>)

Consecutive == \A t \in Threads : era[t] = [i \in 1..Len(era[t]) |-> i - 1] /\ cnt[t] = Len(era[t])
Last(ch) == LET S == {i \in 1..Len(ch) : ~ch[i].com} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
Separators == \A x \in DOMAIN heap : LET ch == heap[x].ch IN
  \A i \in 1..Len(ch) : ch[i].sep = (~ch[i].com /\ i # Last(ch))
FirstOverrideWins == \A x \in DOMAIN heap : heap[x].ov # <<>> => View(heap[x], <<"l", "m">>).look = <<"O", "@m">>
=============================================================================
