------------------------------- MODULE MCHsms -------------------------------
(* The endpoint model on a small alphabet, exhaustively: what C03 to C09 say
   in general terms is checked of every outcome the model allows. With TOUR
   set, every transition is printed; scenarios that take all of them are made
   from that and replayed on real endpoints.                                *)
EXTENDS Hsms, Json, IOUtils
CONSTANT Part      \* "passive", "active", "once" (no auto-reconnect), "wild" (session 0), "calls" (requests, timers; no tour)

VARIABLE m
Z == At(0, 0)
StartOp == [op |-> "new", gem |-> "", role |-> IF Part \in {"active", "once"} THEN "A" ELSE "P", auto |-> Part # "once", t3 |-> 30, t5 |-> 1, t6 |-> 30, t7 |-> 60, t8 |-> 300,
            sess |-> IF Part = "wild" THEN 0 ELSE 1, hs |-> <<[s |-> 1, f |-> 1, k |-> "echo"], [s |-> 1, f |-> 3, k |-> "nil"]>>, df |-> "", cb |-> TRUE]
Start == NewH(StartOp)
Flat(n) == [n EXCEPT !.ss = Z, !.ns = Z, !.last = Z, !.gone = IF n.gone = <<>> THEN <<>> ELSE <<Z>>]

Blank == [ty |-> "", stp |-> 0, sess |-> 1, b2 |-> 0, b3 |-> 0, s |-> 0, f |-> 0, w |-> 0, sys |-> "p:1", body |-> <<>>, kind |-> ""]
Ctl(stp, sess, b3, sys) == [Blank EXCEPT !.ty = "ctl", !.stp = stp, !.sess = sess, !.b3 = b3, !.sys = sys]
Data(s, f, w, sys) == [Blank EXCEPT !.ty = "data", !.s = s, !.f = f, !.w = w, !.sys = sys, !.body = <<NA("x")>>]
Bad(k) == [Blank EXCEPT !.ty = "bad", !.kind = k]
Controls == {Ctl(SelectReq, s, 0, "p:1") : s \in {0, 1, 7, 65535}} \cup {Ctl(SelectRsp, 1, b, "p:1") : b \in 0..1} \cup {Ctl(SelectRsp, 1, b, "sel") : b \in 0..1}
            \cup {Ctl(DeselectReq, 1, 0, "p:1"), Ctl(DeselectRsp, 1, 0, "p:1"), Ctl(LinktestReq, 65535, 0, "p:1"), Ctl(LinktestRsp, 65535, 0, "p:1"),
                  Ctl(RejectReq, 1, 4, "p:1"), Ctl(SeparateReq, 1, 0, "p:1")}
Datas == {Data(1, 1, 1, "p:2"), Data(1, 1, 0, "p:2"), Data(1, 3, 1, "p:2"), Data(64, 1, 1, "p:2"), Data(2, 1, 0, "p:2"), Data(1, 2, 0, "p:2"), Data(9, 1, 0, "p:2")}
Msgs == Controls \cup Datas \cup {Bad("format"), Bad("short")}
Pairs == {<<g, Data(1, 1, 1, "p:2")>> : g \in {Ctl(SelectReq, 1, 0, "p:1"), Ctl(DeselectReq, 1, 0, "p:1"), Ctl(LinktestReq, 65535, 0, "p:1")}}
         \cup {<<Data(1, 1, 1, "p:2"), g>> : g \in {Ctl(DeselectReq, 1, 0, "p:1"), Ctl(SeparateReq, 1, 0, "p:1")}}
Toks == {"a", "b"}
CallOf(x) == [tok |-> x, s |-> 1, f |-> 3, w |-> 1, body |-> <<NA(x)>>]
Replies == {Data(1, 4, 0, "s:a"), Data(1, 4, 0, "s:b"), Data(1, 3, 1, "s:a"), Data(9, 5, 0, "s:b"), Ctl(RejectReq, 1, 4, "s:a"), Ctl(SelectRsp, 1, 0, "s:a"), Ctl(DeselectRsp, 1, 0, "s:a")}

In(gs) == [op |-> "in", msgs |-> gs, cut |-> "one"]
Ops ==
  (IF ~m.on THEN (IF Part = "once" THEN {[op |-> "connect", en |-> TRUE]} ELSE {[op |-> "enable"]}) \cup {[op |-> "noconn", ms |-> IF m.role = "P" THEN 150 ELSE 1500]} ELSE {[op |-> "disable", deaf |-> FALSE]})
  \cup (IF ~m.on \/ m.link THEN {} ELSE IF Part = "once" THEN {[op |-> "noconn", ms |-> 1500]} ELSE {[op |-> "connect", en |-> FALSE]})
  \cup {[op |-> "send", c |-> [tok |-> "", s |-> 2, f |-> 3, w |-> 1, body |-> <<NA("y")>>]]}
  \cup (IF ~m.link THEN {} ELSE
          (IF m.part # <<>> THEN {[op |-> "rest"]} ELSE
             {In(<<g>>) : g \in Msgs} \cup {In(p) : p \in Pairs} \cup {[op |-> "part", k |-> 13, g |-> g] : g \in {Data(1, 1, 1, "p:2"), Ctl(SelectReq, 1, 0, "p:1")}})
          \cup {[op |-> "drop", how |-> h] : h \in {"fin", "rst", "half"}})
  \cup (IF Part # "calls" THEN {} ELSE
          {[op |-> "call", cs |-> <<CallOf(x)>>] : x \in Toks \ DOMAIN m.open} \cup {[op |-> "t3", tok |-> x] : x \in DOMAIN m.open}
          \cup (IF m.link /\ m.part = <<>> THEN {In(<<g>>) : g \in Replies} \cup {In(<<g, h>>) : g, h \in Replies} ELSE {})
          \cup (IF m.link /\ m.st = "NS" THEN {[op |-> "t7"]} ELSE {}) \cup (IF m.part # <<>> THEN {[op |-> "t8"]} ELSE {}))
(* A message that needs the endpoint's own system bytes, or none left part-way at Disable of an active one *)
Possible(e) == /\ e.op = "in" => \A i \in 1..Len(e.msgs) : (e.msgs[i].sys = "sel" => m.sel # "") /\ (e.msgs[i].stp = SeparateReq => m.st = "SEL")
               /\ e.op = "disable" => m.part = <<>>
Outs(e) ==
  CASE e.op = "enable" -> {O(Enable(m))}
    [] e.op = "disable" -> {O(Disable(m, Z))}
    [] e.op = "noconn" -> {O(m)}
    [] e.op = "connect" -> {O(Connected(Enable(m), Z, IF m.role = "A" THEN "sel" ELSE ""))}
    [] e.op = "in" -> RxAll(O(m), e.msgs, Z)
    [] e.op = "part" -> {O([m EXCEPT !.part = <<Z, e.g>>])}
    [] e.op = "rest" -> RxAll(O([m EXCEPT !.part = <<>>]), <<m.part[2]>>, Z)
    [] e.op = "drop" -> {Close(m, Z)}
    [] e.op = "send" -> {SendMsg(m, e.c, "o:1")}
    [] e.op = "call" -> {Call(m, e.cs, [x \in {e.cs[1].tok} |-> "s:" \o x], Z)}
    [] e.op = "t3" -> {[O([m EXCEPT !.open = Del(m.open, {e.tok})]) EXCEPT !.done = <<Failed(e.tok, "t3")>>]}
    [] e.op \in {"t7", "t8"} -> {Close(m, Z)}

(* ---- what every outcome must satisfy ---- *)
Has(e, P(_)) == e.op \in {"in", "rest"} /\ \E g \in (IF e.op = "rest" THEN {m.part[2]} ELSE Range(e.msgs)) : P(g)
Ctls(e, S) == Has(e, LAMBDA g : g.ty = "ctl" /\ g.stp \in S)
Answers(o, g) == {i \in 1..Len(o.out) : o.out[i].sys = g.sys /\ (g.ty = "ctl" => o.out[i].ty = "ctl" /\ o.out[i].stp = g.stp + 1) /\ (g.ty = "data" => o.out[i].ty = "data")}
One(e, P(_)) == e.op = "in" /\ Len(e.msgs) = 1 /\ P(e.msgs[1])
StepOK(e, o) ==
  (* C07 *)
  /\ (o.m.st = "SEL" /\ m.st # "SEL") =>
                                        \/ Ctls(e, {SelectReq}) /\ \E i \in 1..Len(o.out) : o.out[i].ty = "ctl" /\ o.out[i].stp = SelectRsp /\ o.out[i].status \cap {0} # {}
                                        \/ Has(e, LAMBDA g : g.ty = "ctl" /\ g.stp = SelectRsp /\ g.b3 = 0 /\ g.sys = m.sel)
  /\ m.st = "SEL" /\ o.m.st = "NS" => Ctls(e, {DeselectReq})
  /\ m.link /\ ~o.m.link => e.op \in {"disable", "drop", "t7", "t8"} \/ Ctls(e, {SeparateReq, SelectReq, SelectRsp, RejectReq}) \/ Has(e, LAMBDA g : g.ty = "bad")
  /\ o.calls # <<>> => m.st = "SEL" \/ Ctls(e, {SelectReq, SelectRsp})
  /\ e.op \in {"send", "call"} => IF m.st = "SEL" THEN Len(o.out) = 1 ELSE o.out = <<>> /\ Len(o.done) = 1
  /\ One(e, LAMBDA g : g.ty = "ctl" /\ g.stp \in {SelectReq, DeselectReq, LinktestReq}) => Cardinality(Answers(o, e.msgs[1])) = 1 /\ Len(o.out) = 1
  /\ One(e, LAMBDA g : g.ty = "ctl" /\ g.stp \in {SelectRsp, DeselectRsp} /\ g.sys # m.sel) => o.m = m /\ o.out = <<>> /\ o.done = <<>>
  (* C06 *)
  /\ One(e, LAMBDA g : g.ty = "data") =>
       LET g == e.msgs[1] IN
       /\ m.st # "SEL" => o.m = m /\ o.out = <<>> /\ o.calls = <<>> /\ o.done = <<>>
       /\ Len(o.out) + Len(o.done) <= 1 /\ Len(o.calls) <= 1
       /\ \A i \in 1..Len(o.out) : o.out[i].sys = g.sys /\ o.out[i].sess = m.sess /\ g.s # 9 /\ g.f % 2 = 1
       /\ (o.out # <<>> /\ o.calls # <<>>) => g.w = 1
       /\ m.st = "SEL" => (o.calls = <<>> /\ o.done = <<>> /\ g.s # 9 /\ g.f % 2 = 1 => Len(o.out) = 1)
  (* C04, C05 *)
  /\ \A i \in 1..Len(o.done) : LET d == o.done[i] IN
       d.res = "ok" => d.tok \in DOMAIN m.open /\ d.sys = m.open[d.tok].sys /\ (Has(e, LAMBDA g : g.ty = "data" /\ g.sys = d.sys /\ Closes(g))) /\ d.tok \notin DOMAIN o.m.open
  /\ \A x \in DOMAIN m.open : x \notin DOMAIN o.m.open => \E i \in 1..Len(o.done) : o.done[i].tok = x
  /\ Cardinality({o.done[i].tok : i \in 1..Len(o.done)}) = Len(o.done)
  (* C09 *)
  /\ o.m.on # m.on => e.op \in {"enable", "disable", "connect"}
  /\ ~o.m.link => o.m.st = "NC" /\ o.m.sel = "" /\ o.m.part = <<>>

(* The outcome the scenarios expect when there are several *)
Score(o) == (IF ~o.m.link THEN 2 ELSE 0) + (IF o.done # <<>> THEN 1 ELSE 0)
Edge(e, o) == IF "TOUR" \in DOMAIN IOEnv
  THEN PrintT("EDGE " \o ToJson([f |-> m, t |-> Flat(o.m), e |-> e @@ [nd |-> Len(o.done), ncl |-> m.link /\ ~o.m.link]])) ELSE TRUE
Init == m = Start /\ (IF "TOUR" \in DOMAIN IOEnv THEN PrintT("START " \o ToJson([s |-> m, new |-> StartOp])) ELSE TRUE)
Next == \E e \in Ops : Possible(e) /\ LET os == Outs(e) IN
          \E o \in (IF "TOUR" \in DOMAIN IOEnv THEN {CHOOSE o \in os : \A p \in os : Score(o) >= Score(p)} ELSE os) :
            Assert(StepOK(e, o), <<"not as it should be", e, o>>) /\ Edge(e, o) /\ m' = Flat(o.m)
Spec == Init /\ [][Next]_m
Inv == HsmsInv(m)
=============================================================================
