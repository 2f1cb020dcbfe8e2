----------------------------- MODULE TraceComm -----------------------------
(* Lines recorded by "vdrv comm": what happened between a real handler and a
   scripted peer during each step.                                           *)
EXTENDS Comm, TraceBase
VARIABLES l, o
vars == <<l, o>>
e == Trace[l]
S == 200 + 2 * e.lag
Step == /\ e.op # "new"
        /\ LET r == Run(o, e.log, 1, S)
               q == IF r.bad = "" THEN Overdue(r, e.t1, S) ELSE r IN
           /\ IF q.bad = "" THEN TRUE ELSE PrintT(<<"EXPECTED", "not", q.bad, "known", ToString(q)>>) /\ FALSE
           /\ o' = q
New == e.op = "new" /\ o' = NewO(e)
Init == l = 1 /\ o = <<>>
Next == l <= Len(Trace) /\ (New \/ Step) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
