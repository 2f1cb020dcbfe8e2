---------------------------- MODULE TraceBackoff ----------------------------
(* Lines recorded by "vdrv backoff": when a real active endpoint connected to
   a peer that listens at times.                                             *)
EXTENDS Backoff, TraceBase
VARIABLES l, b
vars == <<l, b>>
e == Trace[l]
At(t0, t1) == [lo |-> t0, hi |-> t1]
S == 120 + 2 * e.lag          \* how late an attempt may come
(* The attempt that is due comes while the peer listens *)
Connects(n) == /\ n.on /\ ~n.link /\ n.at # <<>>
               /\ Expect("not before", TRUE, e.con >= n.at[1].lo)
               /\ Expect("in time", TRUE, e.con <= n.at[1].hi + S)
None(n) == IF ~n.on \/ n.link \/ n.at = <<>> THEN {n} ELSE IF n.at[1].hi >= e.t1 THEN {[n EXCEPT !.at = <<At(Max(n.at[1].lo, e.t1), n.at[1].hi)>>]} ELSE {}
Outs ==
  CASE e.op = "enable" -> IF b.n = 0 /\ b.at = <<>> THEN {Enabled(b, At(e.t0, e.t1), S)} ELSE EnabledAgain(b, At(e.t0, e.t1), S)
    [] e.op = "disable" -> {Disabled(n, At(e.t0, e.t1), S) : n \in Idle(b, e.t0, S)}
    [] e.op = "wait" -> Idle(b, e.t1, S)
    [] e.op = "lose" -> IF b.link THEN {Lost(b, At(e.t0, e.t1), S)} ELSE {}
    [] e.op = "listen" -> IF e.con >= 0 THEN {Connected(n) : n \in {k \in Idle(b, e.t0, S) : Connects(k)}}
                          ELSE UNION {None(n) : n \in Idle(b, e.t0, S)}
Step == /\ e.op # "new"
        /\ IF Outs = {} THEN PrintT(<<"EXPECTED", "from", b>>) /\ FALSE ELSE TRUE
        /\ b' \in Outs
        /\ Expect("connected", b'.link, e.link)
        /\ BackoffInv(b')
New == e.op = "new" /\ b' = NewB(e)
Init == l = 1 /\ b = <<>>
Next == l <= Len(Trace) /\ (New \/ Step) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
