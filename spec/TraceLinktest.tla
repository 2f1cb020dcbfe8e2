---------------------------- MODULE TraceLinktest ----------------------------
(* Lines recorded by "vdrv linktest": what the peer of a real endpoint saw and
   did, in order, with times in ms.                                           *)
EXTENDS Linktest, TraceBase
VARIABLES l, b
vars == <<l, b>>
e == Trace[l]
S0 == 150 + 2 * e.lag
SL == 450 + 2 * e.lag
Req == /\ Expect("header", <<255, 255, 0, 0, 0, 5>>, e.head)
       /\ Expect("a test may come", TRUE, MayTest(b, e.t, S0))
       /\ Expect("fresh system bytes", TRUE, Fresh(b, e.sys))
       /\ b' = Tested(b, e.sys, e.t)
Do ==
  CASE e.op = "up" -> ~b.link /\ b' = Up(b, e.t0, e.t)
    [] e.op = "sel" -> b' = Selected(b, e.t)
    [] e.op = "ltreq" -> Req
    [] e.op = "ltrsp" -> b' = Answered(b, e.sys, e.t)
    [] e.op = "wrong" -> b' = b
    [] e.op = "cross" -> b' = [b EXCEPT !.own = @ \cup {e.sys}]
    [] e.op = "rxrsp" -> Expect("an answer to a test of the peer", TRUE, e.sys \in b.own) /\ b' = [b EXCEPT !.own = @ \ {e.sys}]
    [] e.op = "data" -> Expect("fresh system bytes", TRUE, b.open # <<>> => e.sys # b.open[1].sys) /\ b' = [b EXCEPT !.calls = @ \cup {e.sys}]
    [] e.op = "reply" -> b' = [b EXCEPT !.calls = @ \ {e.sys}]
    [] e.op = "ret" -> Expect("its reply", TRUE, e.own \/ ~e.same \/ b.why) /\ b' = b
    [] e.op = "ending" -> b' = [b EXCEPT !.why = TRUE]
    [] e.op = "lt" -> b' = [b EXCEPT !.lt = e.v]
    [] e.op = "down" -> Expect("may be closed", TRUE, MayClose(b, e.t, S0)) /\ b' = Down(b)
    [] e.op = "end" -> Expect("answered", TRUE, b.why \/ b.own = {}) /\ b' = b
Step == /\ e.op # "new"
        /\ Expect("a test is overdue", FALSE, Overdue(b, e.t, SL))
        /\ Do /\ LinktestInv(b')
New == e.op = "new" /\ b' = NewB(e)
Init == l = 1 /\ b = <<>>
Next == l <= Len(Trace) /\ (New \/ Step) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
