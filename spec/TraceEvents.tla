---------------------------- MODULE TraceEvents ----------------------------
(* An event with callbacks: s.regs the registrations in order; s.run, for each
   firing under way, the callbacks it is to call and how many it has.        *)
EXTENDS Integers, Sequences, TLC
VARIABLES l, s, open, done
Start(e) == [regs |-> <<>>, run |-> <<>>]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Apply(s0, c, e) ==
  CASE c.f = "add" -> {[s0 EXCEPT !.regs = Append(@, c.c)]}
    [] c.f = "remove" -> IF \E i \in DOMAIN s0.regs : s0.regs[i] = c.c
                         THEN {[s0 EXCEPT !.regs = Without(@, i)] : i \in {j \in DOMAIN s0.regs : s0.regs[j] = c.c}} ELSE {s0}
    [] c.f = "len" -> IF c.res = Len(s0.regs) THEN {s0} ELSE {}
    [] c.f = "fire" -> IF c.res = s0.regs THEN {[s0 EXCEPT !.run = (c.id :> [todo |-> s0.regs, n |-> 0]) @@ @]} ELSE {}
Inner(s0, e, ops) == {}
(* A callback is called with the data of its firing *)
Seen(s0, e, ops) ==
  IF e.op = "cb" /\ e.fire \in DOMAIN s0.run /\ e.same /\ s0.run[e.fire].n < Len(s0.run[e.fire].todo) /\ s0.run[e.fire].todo[s0.run[e.fire].n + 1] = e.c
  THEN {[s0 EXCEPT !.run[e.fire].n = @ + 1]} ELSE {}
Note(s0, e, ops) ==
  IF e.op = "ret" /\ ops[e.id].f = "fire"
  THEN IF e.id \in DOMAIN s0.run /\ s0.run[e.id].n = Len(s0.run[e.id].todo) THEN {[s0 EXCEPT !.run = [x \in DOMAIN @ \ {e.id} |-> @[x]]]} ELSE {}
  ELSE {s0}
INSTANCE Lin
=============================================================================
