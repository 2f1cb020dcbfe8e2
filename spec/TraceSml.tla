------------------------------ MODULE TraceSml ------------------------------
(* Lines recorded by "vdrv sml": texts that were parsed, and messages that were
   printed and parsed again.                                                  *)
EXTENDS Sml, TraceBase
VARIABLES l
e == Trace[l]
TextL == e.op = "text" /\ Expect("result", TRUE, Allowed(e.toks, e.res, e.seen))
PrintL == e.op = "print" /\ Expect("result", "ok", e.res) /\ Expect("messages", e.ms, e.seen)
Init == l = 1
Next == l <= Len(Trace) /\ (TextL \/ PrintL) /\ l' = l + 1
Spec == Init /\ [][Next]_l
HighWater == Reached(l)
=============================================================================
