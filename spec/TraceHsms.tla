------------------------------ MODULE TraceHsms ------------------------------
(* Lines recorded by "vdrv hsms": each operation with everything its peer and
   its application saw of the real endpoint until it had settled.            *)
EXTENDS Hsms, TraceBase, SequencesExt

VARIABLES l, m
vars == <<l, m>>
e == Trace[l]
b == e.obs
Slack == 800 + 6 * e.lag          \* lag: the longest the driver itself was kept from running, ms
Now == At(e.t0, e.t1)

(* ---- requests that ran out: removed from the observation beforehand ---- *)
IsZ(q) == q.ty = "data" /\ q.s = 9 /\ q.f = 9
Zs == SelectSeq(b.rx, IsZ)
Rx1 == SelectSeq(b.rx, LAMBDA q : ~IsZ(q))
D3 == SelectSeq(b.done, LAMBDA d : d.res = "t3")
Done1 == SelectSeq(b.done, LAMBDA d : d.res # "t3")
Out3 == {D3[i].tok : i \in 1..Len(D3)}
Head10(c) == [sess |-> c.sess, s |-> c.s, f |-> c.f, w |-> c.w, ptype |-> 0, stype |-> 0, sys |-> c.sys]
Mentions(z, x) == z.hdr = Head10(m.open[x])
T3OK ==
  /\ Expect("timeouts of open requests", TRUE, Out3 \subseteq DOMAIN m.open /\ Cardinality(Out3) = Len(D3))
  /\ \A i \in 1..Len(D3) : Expect("T3 time", TRUE, D3[i].el >= m.t3 * 1000 /\ D3[i].el <= m.t3 * 1000 + Slack)
  /\ \A i \in 1..Len(Zs) : LET z == Zs[i] IN
       /\ Expect("S9F9 header", TRUE, z.w = 0 /\ z.sess = m.sess /\ Len(z.body) = 1 /\ z.body[1].t = "B" /\ z.body[1].n = 10)
       /\ Expect("S9F9 of a request that ran out", TRUE, \E x \in Out3 : Mentions(z, x))
       /\ Expect("S9F9 system bytes", TRUE, \A x \in DOMAIN m.open : m.open[x].sys # z.sys)
  /\ \A x \in Out3 : LET n == Cardinality({i \in 1..Len(Zs) : Mentions(Zs[i], x)}) IN
       Expect("number of S9F9", TRUE, n <= 1 /\ (m.st = "SEL" /\ ~m.open[x].lost /\ b.st = "SEL" => n = 1))
M1 == [m EXCEPT !.open = Del(m.open, Out3), !.dead = {m.open[x].sys : x \in Out3}]

(* ---- the rest ---- *)
OutOK(p, q) == /\ p.ty = q.ty /\ p.sess = q.sess /\ p.sys = q.sys
               /\ IF p.ty = "ctl" THEN p.stp = q.stp /\ q.b2 = 0 /\ q.b3 \in p.status
                  ELSE p.s = q.s /\ p.f = q.f /\ p.w = q.w /\ Matches(p.body, q.body)
(* What was sent before a handler of the driver reset the connection may be lost *)
Dropped(o) == m.link /\ ~o.m.link /\ o.calls # <<>> /\ Handler(m, o.calls[Len(o.calls)]) = "drop"
PrefixOK(ps, qs) == Len(qs) <= Len(ps) /\ \A i \in 1..Len(qs) : OutOK(ps[i], qs[i])
OutsOK(ps, qs) == Len(ps) = Len(qs) /\ \A i \in 1..Len(ps) : OutOK(ps[i], qs[i])
RECURSIVE BagOK(_, _)
BagOK(ps, qs) == /\ Len(ps) = Len(qs)
                 /\ ps # <<>> => \E j \in 1..Len(qs) : OutOK(ps[1], qs[j]) /\ BagOK(Tail(ps), RemoveAt(qs, j))
DoneOK(p, q) == /\ p.tok = q.tok /\ p.res = q.res
                /\ p.res = "ok" => <<p.s, p.f, p.w, p.sess, p.sys, p.body>> = <<q.s, q.f, q.w, q.sess, q.sys, q.body>>
DonesOK(ps, qs) == Len(ps) = Len(qs) /\ \A i \in 1..Len(ps) : \E j \in 1..Len(qs) : DoneOK(ps[i], qs[j])
Show(what, exp) == PrintT(<<"EXPECTED", what, exp>>) /\ FALSE

(* What holds after every operation *)
Stays(n) ==
  /\ \A x \in DOMAIN n.open : Expect("T3 in time", TRUE, e.t1 <= n.open[x].hi + n.t3 * 1000 + Slack)
  /\ n.link /\ n.st = "NS" /\ n.t7 > 0 => Expect("T7 closes in time", TRUE, e.t1 <= n.ns.hi + n.t7 * 1000 + Slack)
  /\ n.part # <<>> => Expect("T8 closes in time", TRUE, e.t1 <= n.part[1].hi + n.t8 * 1000 + Slack)
Explains(o, bag) ==
  /\ IF bag THEN BagOK(o.out, Rx1) ELSE IF Dropped(o) THEN PrefixOK(o.out, Rx1) ELSE OutsOK(o.out, Rx1)
     \/ Show("sent", o.out)
  /\ Expect("handler calls", o.calls, b.calls)
  /\ DonesOK(o.done, Done1) \/ Show("finished", o.done)
  /\ Expect("stream 9 errors", o.s9, b.s9)
  /\ Expect("state", o.m.st, b.st)
  /\ Expect("connected", o.m.link, b.con)
  /\ Expect("closed", m.link /\ ~o.m.link, b.closed)
  /\ HsmsInv(o.m)
  /\ Stays(o.m)

T7ok == m.link /\ m.st = "NS" /\ m.t7 > 0 /\ b.closed /\ b.cAt >= m.ns.lo + m.t7 * 1000
T8ok == m.link /\ m.t8 > 0 /\ b.closed /\ b.cAt >= m.last.lo + m.t8 * 1000
Timed(n) == IF T7ok \/ T8ok THEN {Close(n, Now)} ELSE {}

(* Many senders at once: what the peer received ("rx" with the system bytes of the open ones among them) and answered *)
RECURSIVE FloodOK(_, _, _, _)
FloodOK(ev, i, cnt, held) ==
  IF i > Len(ev) THEN \A g \in 1..e.g : Expect("all messages of a sender", e.n, cnt[g])
  ELSE LET v == ev[i] IN
    IF v.k = "tx" THEN FloodOK(ev, i + 1, cnt, held \ {v.sys})
    ELSE /\ Expect("a sender's messages in order", cnt[v.g] + 1, v.i)
         /\ Expect("system bytes of open requests", FALSE, v.sys \in held)
         /\ FloodOK(ev, i + 1, [cnt EXCEPT ![v.g] = @ + 1], IF v.w = 1 THEN held \cup {v.sys} ELSE held)
SysOf(body) == LET js == {j \in 1..Len(Rx1) : Rx1[j].ty = "data" /\ Rx1[j].body = body} IN
               IF Cardinality(js) # 1 THEN "" ELSE Rx1[CHOOSE j \in js : TRUE].sys
Sys == [x \in {e.cs[i].tok : i \in 1..Len(e.cs)} |-> LET i == CHOOSE i \in 1..Len(e.cs) : e.cs[i].tok = x IN SysOf(e.cs[i].body)]
NotDue == \/ ~m.auto /\ m.role = "A" /\ m.gone # <<>>    \* no connection is due
          \/ ~m.on
Opens(n) == Connected(IF e.en THEN Enable(n) ELSE n, Now, IF n.role = "A" /\ Len(Rx1) = 1 THEN Rx1[1].sys ELSE "")
Outcomes ==
  CASE e.op = "enable" -> {O(Enable(M1))}
    [] e.op = "disable" -> {O(IF M1.on THEN Disable(M1, Now) ELSE M1)}
    [] e.op = "noconn" -> {O(M1)}
    [] e.op = "connect" -> {[O(Opens(M1)) EXCEPT !.out = IF m.role = "P" \/ Len(Rx1) # 1 THEN <<>> ELSE <<PC(SelectReq, m.sess, Rx1[1].sys, {0})>>]}
    [] e.op = "in" -> RxAll(O(M1), e.msgs, Now) \cup Timed(M1)
    [] e.op = "part" -> {O([M1 EXCEPT !.part = <<Now, e.g>>])} \cup Timed(M1) \cup (IF e.g.kind = "huge" THEN {Close(M1, Now)} ELSE {})
    [] e.op = "rest" -> RxAll(O([M1 EXCEPT !.part = <<>>]), <<m.part[2]>>, Now) \cup Timed(M1)
    [] e.op = "drop" -> {IF m.link THEN Close(M1, Now) ELSE O(M1)}
    [] e.op = "call" -> {Call(M1, e.cs, Sys, Now)}
    [] e.op \in {"send", "resp"} -> {SendMsg(M1, e.c, IF e.op = "resp" THEN e.sys ELSE IF Len(Rx1) = 1 THEN Rx1[1].sys ELSE "")}
    [] e.op \in {"idle", "t3"} -> {O(M1)} \cup Timed(M1)
    [] e.op \in {"flood", "use", "probe"} -> {O(M1)}
Extra ==
  /\ e.op = "connect" => /\ Expect("connected", TRUE, b.ok)
                         /\ Expect("a connection is due", TRUE, (m.on \/ e.en) /\ ~m.link /\ (e.en \/ ~NotDue))
                         /\ m.role = "A" /\ m.gone # <<>> => Expect("T5 elapsed", TRUE, b.conAt >= m.gone[1].lo + m.t5 * 1000)
                         /\ m.role = "A" => Expect("T5 and no more", TRUE,
                              b.conAt <= Max(e.t0 + 1000, IF m.gone = <<>> THEN 0 ELSE m.gone[1].hi + m.t5 * 1000 + 1000) + Slack)
                         /\ m.role = "P" => Expect("listens soon", TRUE, b.conAt <= e.t0 + 1500 + Slack)
  /\ e.op = "noconn" => /\ Expect("no connection", <<TRUE, FALSE>>, <<NotDue, b.got>>)
                        \* an attempt under way when the endpoint was disabled is given up as soon as it succeeds
                        /\ Expect("attempts", TRUE, b.brief <= (IF ~m.on THEN 1 ELSE 0))
  /\ e.op = "disable" => Expect("disabled in time", TRUE, e.t1 <= e.t0 + 3500 + m.t6 * 1000 + Slack)
  /\ e.op \in {"send"} /\ Len(Rx1) = 1 => Expect("fresh system bytes", TRUE, \A x \in DOMAIN m.open : m.open[x].sys # Rx1[1].sys)
  /\ e.op = "use" => Expect("calls return", TRUE, b.ret)
  /\ e.op = "probe" => /\ Expect("linktest", 1, b.probe.lt)
                       /\ Expect("S1F1 answered", TRUE, b.probe.s1 = 1 /\ (b.probe.f1 = 2 \/ (b.probe.f1 = 0 /\ m.gem = "equip" /\ b.ctl \notin {"OL", "OR"})))
                       /\ Expect("S1F13 answered", <<1, 14, 0>>, <<b.probe.s13, b.probe.f13, b.probe.ack>>)
  /\ e.op = "flood" => Expect("flood", TRUE, FloodOK(b.ev, 1, [g \in 1..e.g |-> 0], {}) /\ \A i \in 1..Len(b.rep) : b.rep[i].got = b.rep[i].want)

Step == /\ e.op # "new"
        /\ T3OK
        /\ Extra
        /\ \E o \in Outcomes : Explains(o, e.op = "call") /\ m' = [o.m EXCEPT !.dead = {}]
New == e.op = "new" /\ m' = NewH(e)
Init == l = 1 /\ m = <<>>
Next == l <= Len(Trace) /\ (New \/ Step) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
