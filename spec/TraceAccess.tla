----------------------------- MODULE TraceAccess -----------------------------
(* Lines of "vdrv access": one message, many reads of it.                     *)
EXTENDS Access, TraceBase
VARIABLE l
e == Trace[l]
(* a float's digits depend on the width of its item *)
Got(ns, r) == IF r.fn = "float" THEN LET i == At(ns, SubSeq(r.path, 1, Len(r.path) - 1)) IN
                                     IF i > 0 /\ ns[i].f = "F4" THEN r.x4 ELSE r.x8
              ELSE r.x
Good(ns, r) == LET w == Read(ns, r.path, r.fn) IN
  CASE w.k = "any" -> TRUE
    [] w.k = "none" -> Expect(ToString(<<"no value", r.fn, r.path>>), TRUE, r.r # "val")
    [] w.k = "err" -> Expect(ToString(<<r.fn, r.path>>), "err", r.r)
    [] OTHER -> /\ Expect(ToString(<<r.fn, r.path>>), "val", r.r)
                /\ Expect(ToString(<<r.fn, r.path>>), w.x, Got(ns, r))
Init == l = 1
Next == /\ l <= Len(Trace) /\ e.op = "read"
        /\ \A j \in 1..Len(e.reads) : Good(e.nodes, e.reads[j])
        /\ Expect("afterwards", e.nodes, e.back) /\ Expect("system bytes", e.sys, e.sys2)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
HighWater == Reached(l)
=============================================================================
