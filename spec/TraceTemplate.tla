---------------------------- MODULE TraceTemplate ----------------------------
(* Lines recorded by "vdrv template": messages with placeholders, filled.
   After every step all messages so far are read again: vars, the placeholders
   in order; item, the nodes of the encoded item; frame, the decoded bytes.   *)
EXTENDS Template, TraceBase
VARIABLES l, ms
vars == <<l, ms>>
e == Trace[l]
Expected(m) == [vars |-> Vars(m.nd), item |-> IF Vars(m.nd) = <<>> THEN Flat(m.nd) ELSE <<>>, hdr |-> m.hdr,
                frame |-> IF Bytes(m) THEN <<[sess |-> m.hdr.sess, s |-> m.hdr.s, f |-> m.hdr.f, w |-> m.hdr.w, sys |-> m.hdr.sys, item |-> Flat(m.nd)]>> ELSE <<>>]
Check(q) == /\ Len(q) = Len(e.all)
            /\ \A i \in DOMAIN q : Expect(<<"message", i>>, Expected(q[i]), e.all[i])
(* the message that the step adds; its ellipses may have got other names     *)
Add(m, free) == LET seen == e.all[Len(e.all)].vars IN
                IF free THEN /\ Expect("placeholders", TRUE, SameVars(Vars(m.nd), seen))
                             /\ ms' = Append(ms, [m EXCEPT !.nd = Rename(m.nd, seen)])
                ELSE ms' = Append(ms, m)
NewL == /\ e.op = "new" /\ Expect("result", "ok", e.res)
        /\ LET m == [hdr |-> e.hdr, nd |-> e.nd] seen == e.all[1].vars IN
           IF e.how = "sml" THEN Expect("placeholders", TRUE, SameVars(Vars(m.nd), seen)) /\ ms' = <<[m EXCEPT !.nd = Rename(m.nd, seen)]>>
           ELSE ms' = <<m>>
        /\ Check(ms')
Fill == /\ e.op = "fill"
        /\ LET m == ms[e.from] IN
           IF FillOK(m.nd, e.vals)
           THEN /\ Expect("result", "ok", e.res)
                /\ Add([m EXCEPT !.nd = Filled(m.nd, e.vals)], Expands(m.nd, e.vals))
           ELSE Expect("result", "refused", e.res) /\ ms' = ms
        /\ Check(ms')
(* Header parts that are set later                                           *)
Set == /\ e.op = "set"
       /\ LET m == ms[e.from]
              r == IF e.what = "sess" THEN [m EXCEPT !.hdr.sess = e.v, !.hdr.sys = e.sys]
                   ELSE IF m.hdr.w = 2 THEN [m EXCEPT !.hdr.w = e.v] ELSE m IN
          IF r.hdr.w = 1 /\ r.hdr.f % 2 = 0 THEN Expect("result", "refused", e.res) /\ ms' = ms
          ELSE Expect("result", "ok", e.res) /\ ms' = Append(ms, r)
       /\ Check(ms')
(* The printed form is read as the same message, outside of any session      *)
Reread == /\ e.op = "print" /\ Expect("result", "ok", e.res)
          /\ Add([ms[e.from] EXCEPT !.hdr.sess = -1, !.hdr.sys = 0], TRUE)
          /\ Check(ms')
Init == l = 1 /\ ms = <<>>
Next == l <= Len(Trace) /\ (NewL \/ Fill \/ Set \/ Reread) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
