----------------------------- MODULE TraceCodec -----------------------------
(* Lines recorded by "vdrv codec": stacks of codecs over an in-memory pipe.  *)
EXTENDS Codec, TraceBase
VARIABLES l, m
vars == <<l, m>>
e == Trace[l]
Send == /\ e.op = "send"
        /\ Expect("sent", TRUE, e.res \in SendRes(m.c, e.size))
        /\ IF e.res = "ok"
           THEN /\ e.base # "json" => Expect("bytes written", m.c.n + e.size, e.wrote)
                /\ Expect("header", LenField(m.c, e.wrote - m.c.n), e.head)
                /\ m' = Put(m, e.d, [k |-> "pkt", size |-> e.wrote - m.c.n, h |-> e.h])
           ELSE Expect("bytes written", 0, e.wrote) /\ m' = m
Bad == e.op = "raw" /\ e.d \in Open(m) /\ m' = Put(m, e.d, e.x)
Recv == /\ e.op = "recv" /\ m.wire[e.d] # <<>>
        /\ LET x == m.wire[e.d][1] r == RecvRes(m.c, x) IN
           /\ Expect("received", TRUE, e.res \in r)
           /\ x.k = "pkt" /\ e.res = "ok" => Expect("packet", x.h, e.h)
           /\ x.k = "doc" /\ e.res = "ok" => Expect("document", x.h, e.h)
        /\ m' = Got(m, e.d, e.res)
(* Both directions at once *)
Flow == /\ e.op = "flow" /\ m.wire = <<<<>>, <<>>>>
        /\ Expect("sent", <<TRUE, TRUE>>, e.allsent)
        /\ Expect("received one way", e.sent[1], e.got[1])
        /\ Expect("received the other way", e.sent[2], e.got[2])
        /\ m' = m
NewL == e.op = "new" /\ m' = New(e)
Init == l = 1 /\ m = <<>>
Next == l <= Len(Trace) /\ (NewL \/ Send \/ Bad \/ Recv \/ Flow) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
