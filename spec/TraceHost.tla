----------------------------- MODULE TraceHost -----------------------------
(* Lines recorded by "vdrv host": calls of a real host answered by a scripted
   equipment, and messages this equipment sends on its own.                 *)
EXTENDS Host, TraceBase
VARIABLES l, c
vars == <<l, c>>
e == Trace[l]
b == e.obs
New == e.op = "new" /\ c' = e.sess
(* The answers an e.rp.how stands for; other messages do not answer the request *)
Result == LET loc == Local(e) IN
  IF loc # {} THEN {IF r.err = "err" THEN Err ELSE Is(r.res) : r \in loc} ELSE {IF e.rp.how = "ok" THEN ResultOf(e, e.rp.nodes) ELSE Err}
Call == /\ e.op = "call"
        /\ IF Local(e) # {} THEN Expect("requests", <<>>, b.req)
           ELSE /\ Expect("requests", 1, Len(b.req))
                /\ LET q == b.req[1] IN
                   /\ Expect("request", <<SF(e.fn)[1], SF(e.fn)[2], 1, c>>, <<q.s, q.f, q.w, q.sess>>)
                   /\ (Expect("request body", TRUE, Matches(ReqPat(e), q.body)) \/ (PrintT(ToString(ReqPat(e))) /\ FALSE))
        /\ \E x \in Result : Expect("result", TRUE, Got(e, x, b.r)) \/ (PrintT(ToString(x)) /\ FALSE)
        /\ Expect("events", <<>>, b.tx)
(* Alarm and event reports: one event each, and the acknowledgement *)
Alarm(ns) == IF Len(ns) = 4 /\ ListOf(ns, 1, 3) /\ ByteAt(ns, 2) /\ NumAt(ns, 3) /\ TextAt(ns, 4)
             THEN LET v == NumOf(ns[2].v[1]) IN      \* this equipment sends 1 for set; E5 means bit 8
                  Is(<<NL(3), PCode(IF v \in 2..127 THEN <<"0", "128">> ELSE IF v = 0 THEN <<"0">> ELSE <<"128">>), PNum(ns[3].v[1]), ns[4]>>) ELSE Open
Uns == /\ e.op = "uns"
       /\ LET x == IF e.s = 5 THEN Alarm(e.nodes) ELSE Report(e.nodes)
              ack(q) == /\ <<e.s, e.f + 1, 0, c>> = <<q.s, q.f, q.w, q.sess>>
                        /\ q.body \in {<<NB("0")>>, <<NL(1), NB("0")>>} IN   \* E5 has no list here
          IF x.k = "is"
          THEN /\ (Expect("one event", TRUE, Len(b.tx) = 1 /\ b.tx[1].s = e.s /\ Matches(x.p, b.tx[1].body)) \/ (PrintT(ToString(x)) /\ FALSE))
               /\ Expect("acknowledgement", TRUE, Len(b.rep) = e.w /\ (e.w = 1 => ack(b.rep[1])))
          ELSE Len(b.tx) <= 1 /\ Len(b.rep) <= e.w
Ask == /\ e.op = "ask"
       /\ Expect("answer to S1F1", TRUE, Len(b.rep) = 1 /\ <<1, 2, 0, c>> = <<b.rep[1].s, b.rep[1].f, b.rep[1].w, b.rep[1].sess>>)
       /\ Expect("events", <<>>, b.tx)
Init == l = 1 /\ c = 0
Next == l <= Len(Trace) /\ (New \/ ((Call \/ Uns \/ Ask) /\ c' = c)) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
