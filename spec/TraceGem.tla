------------------------------ MODULE TraceGem ------------------------------
(* Lines recorded by "vdrv gem": each operation with what the real equipment
   did. A step is allowed if some outcome of Gem explains all of it.        *)
EXTENDS Gem, TraceBase, SequencesExt

VARIABLES l, m, c       \* c: the constants of this equipment: session id
vars == <<l, m, c>>
e == Trace[l]

RepOK(p, q, w, sess) ==
  IF w = 0 \/ p.k = "none" THEN q.k = "none"
  ELSE IF p.k = "any" THEN q.k \in {"none", "rep"} /\ (q.k = "rep" => q.sess = sess /\ q.w = 0)
  ELSE /\ q.k = "rep" /\ q.s = p.s /\ q.f = p.f /\ q.w = 0 /\ q.sess = sess
       /\ Matches(p.body, q.body)
MsgOK(p, q, sess) == q.k = "rep" /\ q.s = p.s /\ q.f = p.f /\ q.w = p.w /\ q.sess = sess /\ Matches(p.body, q.body)
(* Unsolicited messages: exactly the expected ones (the order of several events triggered by one call is open) *)
RECURSIVE TxOK(_, _, _)
TxOK(ps, qs, sess) == /\ Len(ps) = Len(qs)
                      /\ ps # <<>> => \E j \in 1..Len(qs) : MsgOK(ps[1], qs[j], sess) /\ TxOK(Tail(ps), RemoveAt(qs, j), sess)
Handshake(q, sess) == q.sess = sess /\ q.w = 1 /\
  \/ q.s = 1 /\ q.f = 13 /\ q.body \in {<<NL(2), NA(m.mdln), NA(m.rev)>>, <<NL(0)>>}
  \/ q.s = 1 /\ q.f = 1 /\ q.body \in {<<>>, <<NL(0)>>}

Wait == IF e.op = "req" THEN e.w ELSE 1
Explains(o) ==
  LET b == e.obs IN
  /\ Expect("reply", TRUE, RepOK(o.rep, b.rep, Wait, c)) \/ (PrintT(o.rep) /\ FALSE)
  /\ Expect("callbacks", o.cbs, b.cbs)
  /\ Expect("sent", TRUE, TxOK(o.tx, b.tx, c)) \/ (PrintT(o.tx) /\ FALSE)
  /\ Expect("control state changes", o.chg, b.chg)
  /\ Expect("result", o.err, b.err)
  /\ Expect("list", o.list, {b.list[i] : i \in 1..Len(b.list)})
  /\ Expect("listed once", Cardinality(o.list), Len(b.list))
  /\ Expect("handshakes", TRUE, \A i \in 1..Len(b.hs) : Handshake(b.hs[i], c))
  /\ Expect("control state", o.m.ctl, b.ctl)
  /\ Expect("communicating", o.m.com, b.com)

New == /\ e.op = "new"
       /\ m' = NewState(e) /\ c' = e.sess
       /\ Expect("control state", NewState(e).ctl, e.ctl)
       /\ Expect("communicating", FALSE, e.com)
Step == /\ e.op \in {"sel", "com", "req", "api", "s1f1", "down", "pause", "pauseOldT3"}
        /\ \E o \in Outs(m, IF e.op = "req" THEN e @@ [now |-> e.obs.now] ELSE e) : Explains(o) /\ m' = o.m
        /\ c' = c
Init == l = 1 /\ m = <<>> /\ c = 0
Next == l <= Len(Trace) /\ (New \/ Step) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
