----------------------------- MODULE CallTrace -----------------------------
(***************************************************************************)
(* Which document calls the printer makes (L10) and how much of the        *)
(* document they look at (L11).  Every recorded API call comes with the    *)
(* document calls it made: <<method, node, label, index, parent>>.         *)
(*                                                                         *)
(* L11 follows each session with the Printer machine: a call that looks    *)
(* into the contents of a node is allowed only if the machine has looked   *)
(* into that node (or, for what a parent's notation asks of its children,  *)
(* into the parent) by the end of this request.                            *)
(***************************************************************************)
EXTENDS Printer, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Mode == IOEnv.MODE

VARIABLES tid, l, own, uses, ss, nc, verdict
vars == <<tid, l, own, uses, ss, nc, verdict>>
C == Cases[tid]
Ev == C.ev[l]

-----------------------------------------------------------------------------
(* The notation nodes of the notation with root n. *)
RECURSIVE Sub(_, _)
Sub(CC, n) ==
  LET x == CC.N[n] IN
  {n} \cup (IF "a" \in DOMAIN x THEN Sub(CC, x.a) ELSE {}) \cup (IF "b" \in DOMAIN x THEN Sub(CC, x.b) ELSE {})
      \cup (IF "c" \in DOMAIN x THEN Sub(CC, x.c) ELSE {})

Parent(d) == LET P == {x \in 1..Len(C.D) : \E i \in 1..Len(C.D[x].ch) : C.D[x].ch[i] = d}
             IN IF P = {} THEN 0 ELSE CHOOSE x \in P : TRUE
IndexOf(p, d) == CHOOSE i \in 1..Len(C.D[p].ch) : C.D[p].ch[i] = d

(* conditions that some check asks of node d *)
Asked(d) ==
  LET Checks(e) == {C.N[n] : n \in {m \in own[e] : C.N[m].k = "check"}}
      p == Parent(d)
  IN {x.q : x \in {y \in Checks(d) : y.cp = "here"}}
     \cup (IF p = 0 THEN {}
           ELSE LET i == IndexOf(p, d)
                    k == Len(C.D[p].ch)
                IN {x.q : x \in {y \in Checks(p) : \/ y.cp = "child" /\ ChildPos(y.i, k) = i
                                                   \/ y.cp = "right" /\ i >= 2
                                                   \/ y.cp = "left" /\ i < k}})
Labels(d) == {C.N[n].l : n \in {m \in own[d] : C.N[m].k \in {"style", "indent"}}} \ {""}

CallVerdict(c) ==
  LET m == c[1]
      d == c[2]
      D == C.D[d]
  IN
  CASE m = "text" -> IF D.t THEN "" ELSE "text requested of a node without text"
    [] m = "child" -> IF D.t THEN "child requested of a text node"
                      ELSE IF c[4] < Len(D.ch) THEN "" ELSE "child requested beyond the last"
    [] m = "last" -> IF D.t \/ D.ch = <<>> THEN "last child requested of a node without children" ELSE ""
    [] m = "prev" -> IF c[5] >= 1 /\ c[5] <= Len(C.D) /\ c[4] + 2 <= Len(C.D[c[5]].ch) /\ C.D[c[5]].ch[c[4] + 2] = d
                     THEN "" ELSE "previous sibling requested with the wrong parent or index"
    [] m = "condition" -> IF c[3] \in uses[d].q THEN "" ELSE "condition " \o c[3] \o " asked of a node no check designates"
    [] m = "lookup" -> IF c[3] \in uses[d].l THEN "" ELSE "style label " \o c[3] \o " not used by the node's notation"
    [] OTHER -> ""

RECURSIVE Calls(_, _)
Calls(cs, i) == IF i > Len(cs) THEN "" ELSE LET v == CallVerdict(cs[i]) IN IF v # "" THEN v \o " (" \o ToString(cs[i]) \o ")" ELSE Calls(cs, i + 1)

JudgeL10 == IF Ev.e = "run" THEN "" ELSE IF Ev.r = "panic" THEN "panic: " \o Ev.msg ELSE Calls(Ev.calls, 1)

-----------------------------------------------------------------------------
(* L11: what the session's machine may look into after this request *)
Inner == {"text", "child", "last", "num", "lookup"}
Excess(open, cs) ==
  {c \in {cs[i] : i \in 1..Len(cs)} :
     ~(c[2] \in open \/ (c[1] \notin Inner /\ Parent(c[2]) \in open))}

FACTOR == 8
SLACK == 40

After ==   \* the session after this request, or [free |-> TRUE] if it ran into an error
  IF Ev.e = "open"
  THEN LET x == POpen(C, C.W, C.root, Ev.path, Ev.tgt, Ev.pos)
       IN [free |-> x.p.err # NoErr, up |-> [x.p EXCEPT !.next = <<>>], dn |-> [x.p EXCEPT !.prev = <<>>]]
  ELSE LET s == ss[Ev.sid] IN
       IF s.free THEN s
       ELSE IF Ev.e = "up" THEN LET x == PrintPrev(C, C.W, s.up) IN [s EXCEPT !.up = x.p, !.free = x.p.err # NoErr]
       ELSE LET x == PrintNext(C, C.W, s.dn) IN [s EXCEPT !.dn = x.p, !.free = x.p.err # NoErr]

JudgeL11 ==
  IF Ev.e \notin {"open", "up", "down"} THEN [v |-> "", ss |-> ss, nc |-> nc]
  ELSE LET s == After
           bad == Excess(s.up.open \cup s.dn.open, Ev.calls)
           cost == s.up.n + s.dn.n
           made == (IF Ev.e = "open" THEN 0 ELSE nc[Ev.sid]) + Ev.nc
       IN [ss |-> (Ev.sid :> s) @@ ss, nc |-> (Ev.sid :> made) @@ nc,
           v |-> IF s.free THEN ""
                 ELSE IF Ev.r = "panic" THEN "panic: " \o Ev.msg
                 ELSE IF bad # {} THEN "looked into a node away from the requested lines: " \o ToString(CHOOSE c \in bad : TRUE)
                 ELSE IF made > FACTOR * cost + SLACK THEN "too many document calls: " \o ToString(made) \o " for " \o ToString(cost)
                 ELSE ""]

-----------------------------------------------------------------------------
Init == tid \in 1..Len(Cases) /\ l = 0 /\ own = <<>> /\ uses = <<>> /\ ss = << >> /\ nc = << >> /\ verdict = ""

Prepare1 == /\ l = 0 /\ own = <<>>
            /\ own' = [d \in 1..Len(C.D) |-> IF Mode = "L10" THEN Sub(C, C.D[d].n) ELSE {}]
            /\ IF Mode = "L10" THEN l' = 0 ELSE l' = 1
            /\ UNCHANGED <<tid, uses, ss, nc, verdict>>
Prepare2 == /\ l = 0 /\ own # <<>>
            /\ uses' = [d \in 1..Len(C.D) |-> [q |-> Asked(d), l |-> Labels(d)]]
            /\ l' = 1 /\ UNCHANGED <<tid, own, ss, nc, verdict>>

Consume ==
  /\ l > 0 /\ l <= Len(C.ev) /\ verdict = ""
  /\ IF Mode = "L10"
     THEN verdict' = JudgeL10 /\ UNCHANGED <<ss, nc>>
     ELSE \E j \in {JudgeL11} : verdict' = j.v /\ ss' = j.ss /\ nc' = j.nc
  /\ IF verdict' = "" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, verdict'>>)
  /\ l' = l + 1
  /\ UNCHANGED <<tid, own, uses>>

Done == l > Len(C.ev) /\ verdict = "" /\ UNCHANGED vars
Spec == Init /\ [][Prepare1 \/ Prepare2 \/ Consume \/ Done]_vars
Accepted == verdict = ""
Short == [case |-> tid, event |-> l, verdict |-> verdict]
=============================================================================
