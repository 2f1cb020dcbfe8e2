----------------------------- MODULE TraceDeque -----------------------------
(* The transaction queue: a FIFO whose Get waits for an item until its timeout.
   s.q: the items, oldest first; s.put: when each Put returned.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES l, s, open, done
Start(e) == [q |-> <<>>, put |-> <<>>, took |-> {}]
Apply(s0, c, e) ==
  CASE c.f = "put" -> {[s0 EXCEPT !.q = Append(@, c.v)]}
    [] c.f = "get" /\ c.res = "fail" -> IF s0.q = <<>> /\ e.t >= c.t + 1000 * c.timeout THEN {s0} ELSE {}
    [] c.f = "get" /\ c.res = "ok" -> IF s0.q # <<>> /\ Head(s0.q) = c.v THEN {[s0 EXCEPT !.q = Tail(@)]} ELSE {}
Inner(s0, e, ops) == {}
Seen(s0, e, ops) == {}
Slack(e) == 500 + 2 * e.lag
(* An item was there all the time that a Get waited: even if each other Get that got one had taken one before *)
Stalled(s0, e, ops) ==
  \E i \in DOMAIN ops : /\ ops[i].f = "get" /\ ops[i].t < e.t - Slack(e)
                        /\ Cardinality({k \in 1..Len(s0.put) : s0.put[k] < e.t - Slack(e)}) > Cardinality(s0.took \ {i})
Note(s0, e, ops) ==
  IF Stalled(s0, e, ops) THEN {}
  ELSE IF e.op = "call" THEN {[s0 EXCEPT !.took = IF e.f = "get" /\ e.res = "ok" THEN @ \cup {e.id} ELSE @]}
  ELSE LET c == ops[e.id] IN
       IF c.f = "put" THEN {[s0 EXCEPT !.put = Append(@, e.t)]}
       ELSE IF c.res = "fail" /\ e.t > c.t + 1000 * c.timeout + Slack(e) THEN {} ELSE {s0}
INSTANCE Lin
=============================================================================
