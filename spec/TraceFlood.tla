----------------------------- MODULE TraceFlood -----------------------------
(* "vdrv flood": calls stay open while very many messages are sent.  No two of
   these messages have the same system bytes, so that in the end each call gets
   the reply to its own request, however old it is.                           *)
EXTENDS TraceBase
VARIABLES l
e == Trace[l]
Flood == /\ e.op = "flood"
         /\ Expect("messages sent", e.n, e.sent)
         /\ Expect("messages seen", e.sent + e.calls, e.total)
         /\ Expect("different system bytes", e.total, e.distinct)
         /\ \A i \in 1..Len(e.res) : Expect("reply", e.res[i].key \o "!", e.res[i].got)
Init == l = 1
Next == l <= Len(Trace) /\ Flood /\ l' = l + 1
Spec == Init /\ [][Next]_l
HighWater == Reached(l)
=============================================================================
