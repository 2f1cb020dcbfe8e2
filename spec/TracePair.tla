----------------------------- MODULE TracePair -----------------------------
(* Lines recorded by "vdrv pair": calls of a real host connected to a real
   equipment, and what the equipment's application does. tx are the events the
   host's application got, written as the messages they stand for.           *)
EXTENDS Host, TraceBase, SequencesExt
VARIABLES l, m
vars == <<l, m>>
e == Trace[l]
RECURSIVE TxOK(_, _)
TxOK(ps, qs) == /\ Len(ps) = Len(qs)
                /\ ps # <<>> => \E j \in 1..Len(qs) : /\ qs[j].s = ps[1].s /\ qs[j].f = ps[1].f /\ Matches(ps[1].body, qs[j].body)
                                                        /\ TxOK(Tail(ps), RemoveAt(qs, j))
(* [o, r] with the outcome o of the call and the result r it gives, a pattern *)
CallOuts(m0, c, now) ==
  LET loc == Local(c) none == Out(m0, NoRep) IN
  IF loc # {} THEN {[o |-> none, x |-> IF r.err = "err" THEN Err ELSE Is(r.res)] : r \in loc}
                   \cup (IF m0.com THEN {} ELSE {[o |-> none, x |-> [k |-> "notcomm"]]})
  ELSE IF ~m0.com THEN {[o |-> none, x |-> [k |-> "notcomm"]]}
  ELSE {[o |-> o, x |-> IF o.rep.k = "rep" THEN Is(Handed(c, o.rep.body)) ELSE Open] : o \in ReqOuts(m0, ReqOf(c) @@ [now |-> now])}
Result(c, x, r) == IF x.k = "notcomm" THEN r.err = "notcomm" ELSE Got(c, x, r)
Rest(o) == LET b == e.obs IN
  /\ Expect("callbacks", o.cbs, b.cbs)
  /\ Expect("events", TRUE, TxOK(o.tx, b.tx)) \/ (PrintT(ToString(o.tx)) /\ FALSE)
  /\ Expect("control state changes", o.chg, b.chg)
  /\ Expect("control state", o.m.ctl, b.ctl)
  /\ Expect("communicating", o.m.com, b.com)
New == e.op = "new" /\ m' = NewState(e)
Call == /\ e.op = "call"
        /\ \E c \in CallOuts(m, e, e.obs.now) :
             /\ Expect("result", TRUE, Result(e, c.x, e.obs.r)) \/ (PrintT(ToString(c.x)) /\ FALSE)
             /\ Rest(c.o) /\ m' = c.o.m
(* reading calls and triggers at the same time *)
Par == /\ e.op = "par"
       /\ \A i \in DOMAIN e.calls : \E c \in CallOuts(m, e.calls[i], e.obs.now) :
            Expect("result of " \o ToString(i), TRUE, Result(e.calls[i], c.x, e.obs.rs[i])) \/ (PrintT(ToString(c.x)) /\ FALSE)
       /\ Rest([Out(m, NoRep) EXCEPT !.tx = Concat([i \in 1..Len(e.trig) |-> (CHOOSE o \in TriggerOut(m, <<e.trig[i]>>) : TRUE).tx])])
       /\ UNCHANGED m
Api == /\ e.op = "api"
       /\ \E o \in ApiOuts(m, e) : /\ Expect("result", o.err, e.obs.err) /\ Rest(o) /\ m' = o.m
                                    /\ Expect("list", o.list, {e.obs.list[i] : i \in 1..Len(e.obs.list)})
Link == e.op = "link" /\ \E o \in {BecomeCommunicating(Out([m EXCEPT !.sel = TRUE], NoRep), "ok")} : Rest(o) /\ m' = o.m
Cut == e.op = "cut" /\ \E o \in {LoseCommunication(Out([m EXCEPT !.sel = FALSE], NoRep))} : Rest(o) /\ m' = o.m
Init == l = 1 /\ m = <<>>
Next == l <= Len(Trace) /\ (New \/ Call \/ Par \/ Api \/ Link \/ Cut) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
