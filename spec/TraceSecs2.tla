----------------------------- MODULE TraceSecs2 -----------------------------
(* Lines recorded by "vdrv c01" and "vdrv c02": what the code's encoder and
   decoder did, judged by Secs2.                                            *)
EXTENDS Secs2, TraceBase

VARIABLE l
e == Trace[l]

DecIs(d, m) ==   \* the code decoded d as the message m
  /\ d.ok /\ ~d.panic
  /\ Expect("type", m.type, d.type)
  /\ Expect("session", m.sess, d.sess)
  /\ Expect("system bytes", m.sys, d.sys)
  /\ Expect("stream/function/wait", <<m.stream, m.func, m.wait>>, <<d.stream, d.func, d.wait>>)
  /\ Expect("items", m.nodes, d.nodes)

Enc ==
  /\ e.op = "enc"
  /\ Expect("bytes", Encode(e), e.bytes)
  /\ Expect("decodes", TRUE, e.dec.ok)
  /\ DecIs(e.dec, [type |-> "data message", sess |-> e.sess, sys |-> e.sys, stream |-> e.stream, func |-> e.func,
                   wait |-> e.wait, nodes |-> e.nodes])
  /\ Expect("encodes again", e.bytes, e.dec.re)

Ctl ==
  /\ e.op = "ctl"
  /\ LET s == CASE e.ctor = "rejectfrom" -> 7 [] OTHER -> STypes[e.ctor]
         c == [stype |-> s,
               sess |-> IF s \in {5, 6} THEN 65535 ELSE e.sess,
               b2 |-> IF s # 7 THEN 0 ELSE IF e.reason = 2 THEN e.ptype ELSE e.stype,
               b3 |-> CASE s \in {2, 4} -> e.status [] s = 7 -> e.reason [] OTHER -> 0,
               sys |-> e.sys]
     IN /\ Expect("bytes", EncodeControl(c), e.bytes)
        /\ Expect("type", TypeName(s), e.type)
        /\ DecIs(e.dec, [type |-> TypeName(s), sess |-> c.sess, sys |-> c.sys, stream |-> c.b2, func |-> c.b3, wait |-> 0, nodes |-> <<>>])
        /\ Expect("encodes again", e.bytes, e.dec.re)

Dec ==
  /\ e.op = "dec"
  /\ ~e.dec.panic
  /\ LET m == Decode(e.bytes) IN
     IF ~m.ok THEN Expect("rejected", FALSE, e.dec.ok)
     ELSE IF m.free /\ ~e.dec.ok THEN TRUE
          ELSE /\ Expect("accepted", TRUE, e.dec.ok)
               /\ IF m.free THEN TRUE ELSE DecIs(e.dec, m)
               /\ ~m.free /\ CanonFrom(SubSeq(e.bytes, 15, Len(e.bytes)), 1) => Expect("encodes again", e.bytes, e.dec.re)

RECURSIVE Strings(_, _)
Strings(a, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Strings(a, n-1), x \in a}
AccSet ==
  /\ e.op = "accset"
  /\ LET all == Strings({e.alphabet[i] : i \in 1..Len(e.alphabet)}, e.n)
         got == {e.accepted[i] : i \in 1..Len(e.accepted)}
         res == [s \in all |-> Text(e.prefix \o s)]
     IN /\ Expect("wrongly refused", {}, {s \in all \ got : res[s].ok /\ ~res[s].free})
        /\ Expect("wrongly accepted", {}, {s \in got : ~res[s].ok})

\* For an item's head: the numbers of data bytes (all of one value) behind it, up to max, with which the text is accepted.
AccLen ==
  /\ e.op = "acclen"
  /\ LET got == {e.accepted[i] : i \in 1..Len(e.accepted)}
         res == [k \in 0..e.max |-> Text(e.prefix \o [i \in 1..k |-> e.byte])]
     IN /\ Expect("wrongly refused with so many bytes", {}, {k \in (0..e.max) \ got : res[k].ok /\ ~res[k].free})
        /\ Expect("wrongly accepted with so many bytes", {}, {k \in got : ~res[k].ok})

Init == l = 1
Next == l <= Len(Trace) /\ (Enc \/ Ctl \/ Dec \/ AccSet \/ AccLen) /\ l' = l + 1
Spec == Init /\ [][Next]_l
HighWater == Reached(l)
=============================================================================
