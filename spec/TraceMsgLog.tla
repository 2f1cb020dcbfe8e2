---------------------------- MODULE TraceMsgLog ----------------------------
(* Traces of "vdrv msglog".  Each line is one step: what was done, the frames
   that the peer sent (rx) and received (tx) in it, and what each of the two
   logs got: entries, and lines that are no part of one (junk).  A
   configuration is in force from the line that sets it.                      *)
EXTENDS MsgLog, TraceBase
VARIABLES l, cfg
vars == <<l, cfg>>
e == Trace[l]
Cfg(c) == [en |-> c.en, mode |-> c.mode, ctrl |-> c.ctrl, excl |-> {c.excl[i] : i \in 1..Len(c.excl)}, w |-> c.w]
Of(log, dir) == SelectSeq(log, LAMBDA x : x.dir = dir)
Set(s) == {s[i] : i \in 1..Len(s)}
Where(x) == IF x.dir = "in" THEN 1 ELSE 2
\* A message that the endpoint sends because of one it received is logged behind it.
Causal(log) == \A i, j \in 1..Len(log) : (i < j /\ log[i].dir = "out" /\ log[j].dir = "in" /\ log[i].sys # <<>>) => log[i].sys # log[j].sys
Same(what, exp, got) == /\ Expect("number of entries " \o what, Len(exp), Len(got))
                        /\ IF e.ordered THEN Expect("entries " \o what, exp, got) ELSE Expect("entries " \o what, Set(exp), Set(got))
Check(c) == LET other == e.logs[2 - c.w]
                mine == e.logs[c.w + 1]
            IN /\ Expect("lines that belong to no entry", <<>>, e.junk)
               /\ Expect("overlapping writes", 0, e.overlaps)
               /\ Expect("entries in the log that is not configured", <<>>, other)
               /\ Same("received", Entries(c, "in", e.rx), Of(mine, "in"))
               /\ Same("sent", Entries(c, "out", e.tx), Of(mine, "out"))
               /\ e.ordered /\ ~e.asks => Causal(mine)
New == e.op = "new" /\ cfg' = Cfg(e.cfg)
Conf == e.op = "cfg" /\ Check(Cfg(e.cfg)) /\ cfg' = Cfg(e.cfg)
Step == e.op = "step" /\ Check(cfg) /\ UNCHANGED cfg
Init == l = 1 /\ cfg = Off
Next == l <= Len(Trace) /\ (New \/ Conf \/ Step) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
