-------------------------------- MODULE Hsms --------------------------------
(* One HSMS endpoint (SEMI E37) as its peer and its application see it. The
   state m is one record:

     role     "P" passive, "A" active; auto: auto-reconnect
     t3..t8   timers in seconds, 0: never
     on       enabled
     link     a TCP connection to the peer exists
     st       "NC" not connected, "NS" not selected, "SEL" selected
     sess     session id (own, or adopted from the peer's select)
     sel      system bytes of the own open select.req, "" if none
     ss       when it was sent [lo, hi]
     hs, df   handlers [s, f, k], kind of the default handler ("" none)
     gem      "host", "equip": a GEM handler is attached; what it does with data
              is the subject of Gem and not looked at here; "": none
     cb       a callback for stream 9 errors is set
     open     token -> open request [sys, s, f, w, sess, lo, hi, lost]
     dead     system bytes of requests that ran out in the current operation
     ns       when the connection was last unselected
     last     when the last complete message came, or the connection
     part     since when a message is arriving part-way, <<>> if none
     gone     when the last connection was lost (active: T5 runs), <<>> if none

   Times are intervals [lo, hi] of milliseconds. Outcomes are records: the next
   state, the messages sent (patterns), the handler calls, the finished requests
   and the reported stream 9 errors.                                         *)
EXTENDS Nodes

At(t0, t1) == [lo |-> t0, hi |-> t1]
Max(a, b) == IF a > b THEN a ELSE b
Known == (1..10) \cup (12..17) \cup {21}         \* streams of SEMI E5
SelectReq == 1  SelectRsp == 2  DeselectReq == 3  DeselectRsp == 4  LinktestReq == 5  LinktestRsp == 6  RejectReq == 7  SeparateReq == 9
AnyStatus == 0..255

NewH(e) == [role |-> e.role, auto |-> e.auto, t3 |-> e.t3, t5 |-> e.t5, t6 |-> e.t6, t7 |-> e.t7, t8 |-> e.t8, on |-> FALSE, link |-> FALSE, st |-> "NC",
            sess |-> e.sess, wild |-> e.sess \in {0, 65535}, sel |-> "", ss |-> At(0, 0), hs |-> e.hs, df |-> e.df, cb |-> e.cb, gem |-> e.gem, open |-> EmptyMap, dead |-> {},
            ns |-> At(0, 0), last |-> At(0, 0), part |-> <<>>, gone |-> <<>>]

PC(stp, sess, sys, status) == [ty |-> "ctl", stp |-> stp, sess |-> sess, sys |-> sys, status |-> status]
PD(s, f, w, sess, sys, body) == [ty |-> "data", s |-> s, f |-> f, w |-> w, sess |-> sess, sys |-> sys, body |-> body]
O(m) == [m |-> m, out |-> <<>>, calls |-> <<>>, done |-> <<>>, s9 |-> <<>>]

(* ------------------------------ connection ------------------------------ *)
Lost(m, t) == [m EXCEPT !.link = FALSE, !.st = "NC", !.sel = "", !.part = <<>>, !.gone = IF m.role = "A" THEN <<t>> ELSE <<>>,
                        !.open = [x \in DOMAIN m.open |-> [m.open[x] EXCEPT !.lost = TRUE]]]
Connected(m, t, sys) == [m EXCEPT !.link = TRUE, !.st = "NS", !.sel = sys, !.ss = t, !.ns = t, !.last = t, !.part = <<>>, !.gone = <<>>]

(* --------------------------------- data --------------------------------- *)
Closes(g) == g.f % 2 = 0 \/ g.s = 9                     \* can close an open request
OpenBy(m, sys) == {x \in DOMAIN m.open : m.open[x].sys = sys}
Ok(x, g) == [tok |-> x, res |-> "ok", s |-> g.s, f |-> g.f, w |-> g.w, sess |-> g.sess, sys |-> g.sys, body |-> g.body]
Failed(x, why) == [tok |-> x, res |-> why]
Handler(m, g) == LET is == {i \in 1..Len(m.hs) : m.hs[i].s = g.s /\ m.hs[i].f = g.f} IN
                 IF is # {} THEN m.hs[CHOOSE i \in is : TRUE].k ELSE m.df
Which(m, g) == IF \E i \in 1..Len(m.hs) : m.hs[i].s = g.s /\ m.hs[i].f = g.f THEN "own" ELSE "default"
Seen(m, g) == [by |-> Which(m, g), s |-> g.s, f |-> g.f, w |-> g.w, sess |-> g.sess, sys |-> g.sys, body |-> g.body]
(* What the handlers the driver installs answer *)
HandlerReply(k, m, g) ==
  CASE k \in {"echo", "opt", "drop"} -> <<PD(g.s, (g.f + 1) % 256, 0, m.sess, g.sys, g.body)>>
    [] k = "other" -> <<PD((g.s % 127) + 1, 2, 0, m.sess, g.sys, <<NA("other")>>)>>
    [] k \in {"nil", "err"} -> <<>>
Dispatch(m, g, t) ==
  LET k == Handler(m, g)
      s9 == IF g.s = 9 /\ m.cb THEN <<[f |-> g.f, sys |-> g.sys]>> ELSE <<>>
  IN IF k = "" THEN
       [O(m) EXCEPT !.s9 = s9, !.out = IF g.s = 9 \/ g.f % 2 = 0 THEN <<>>
          ELSE IF g.s \notin Known THEN <<PD(9, 3, 0, m.sess, g.sys, <<NB(ToString(g.s))>>)>> ELSE <<PD(9, 5, 0, m.sess, g.sys, <<NB(ToString(g.f))>>)>>]
     ELSE [O(IF k = "drop" THEN Lost(m, t) ELSE m) EXCEPT !.s9 = s9, !.calls = <<Seen(m, g)>>,
                        !.out = IF g.w = 1 /\ k # "drop" THEN HandlerReply(k, m, g) ELSE <<>>]
RxData(m, g, t) ==
  IF m.st # "SEL" \/ m.gem # "" THEN {O(m)}
  ELSE IF Closes(g) /\ OpenBy(m, g.sys) # {} THEN
    LET x == CHOOSE x \in OpenBy(m, g.sys) : TRUE
        o == [O([m EXCEPT !.open = Del(m.open, {x})]) EXCEPT !.done = <<Ok(x, g)>>]
    IN {o} \cup (IF g.s = 9 /\ m.cb THEN {[o EXCEPT !.s9 = <<[f |-> g.f, sys |-> g.sys]>>]} ELSE {})
  ELSE {Dispatch(m, g, t)}

(* -------------------------------- control -------------------------------- *)
Close(m, t) == O(Lost(m, t))
SessOK(m, g) == g.sess = m.sess \/ g.sess = 65535 \/ m.sess \in {0, 65535}
Adopt(m, g) == IF g.sess # m.sess /\ g.sess # 65535 THEN g.sess ELSE m.sess
Rejected(m, sys) ==    \* the peer refuses a request: that may end it with an error
  LET xs == OpenBy(m, sys) IN
  {O(m)} \cup (IF xs = {} THEN {} ELSE LET x == CHOOSE x \in xs : TRUE IN {[O([m EXCEPT !.open = Del(m.open, {x})]) EXCEPT !.done = <<Failed(x, "err")>>]})
RxCtl(m, g, t) ==
  CASE g.stp = SelectReq ->
         IF ~SessOK(m, g)
         THEN {[Close(m, t) EXCEPT !.out = <<PC(SelectRsp, g.sess, g.sys, 1..255)>>]}
              \cup (IF m.wild THEN {[O([m EXCEPT !.st = "SEL", !.sess = Adopt(m, g)]) EXCEPT !.out = <<PC(SelectRsp, g.sess, g.sys, {0})>>]} ELSE {})
         ELSE {[O([m EXCEPT !.st = "SEL", !.sess = Adopt(m, g)]) EXCEPT
                !.out = <<PC(SelectRsp, g.sess, g.sys, IF m.st = "SEL" THEN {0, 1} ELSE {0})>>]}
    [] g.stp = SelectRsp ->
         IF m.sel # "" /\ g.sys = m.sel
         THEN LET m1 == [m EXCEPT !.sel = ""]
                  in  == IF g.b3 = 0 THEN {O([m1 EXCEPT !.st = "SEL"])} ELSE {Close(m1, t)}
                  out == {O(m1)}                        \* T6 ran out before
              IN IF t.hi < m.ss.lo + m.t6 * 1000 - 300 THEN in ELSE IF t.lo > m.ss.hi + m.t6 * 1000 + 1000 THEN out ELSE in \cup out
         ELSE {O(m)}
    [] g.stp = DeselectReq -> {[O(IF m.st = "SEL" THEN [m EXCEPT !.st = "NS", !.ns = t] ELSE m) EXCEPT
                                !.out = <<PC(DeselectRsp, g.sess, g.sys, IF m.st = "SEL" THEN {0} ELSE AnyStatus)>>]}
    [] g.stp = DeselectRsp -> {O(m)}
    [] g.stp = LinktestReq -> {[O(m) EXCEPT !.out = <<PC(LinktestRsp, g.sess, g.sys, {0})>>]}
    [] g.stp = LinktestRsp -> {O(m)}
    [] g.stp = RejectReq -> Rejected(m, g.sys) \cup (IF m.sel # "" /\ g.sys = m.sel THEN {O([m EXCEPT !.sel = ""]), Close(m, t)} ELSE {})
    [] g.stp = SeparateReq -> {Close(m, t)} \cup (IF m.st = "NS" THEN {O(m)} ELSE {})

(* One message, or what is none, from the peer; nothing after the connection was closed. *)
Rx(m, g, t) ==
  IF ~m.link THEN {O(m)}
  ELSE CASE g.ty = "bad" -> {Close(m, t)}
         [] g.ty = "maybe" -> {Close(m, t), O([m EXCEPT !.last = t])}      \* what is not said to be refused or accepted
         [] g.ty = "data" -> RxData([m EXCEPT !.last = t], g, t)
         [] g.ty = "ctl" -> RxCtl([m EXCEPT !.last = t], g, t)
Join(a, b) == [m |-> b.m, out |-> a.out \o b.out, calls |-> a.calls \o b.calls, done |-> a.done \o b.done, s9 |-> a.s9 \o b.s9]
(* An answer right after the request was answered or ran out may be taken for a part of that request *)
Again(o, g) == IF g.ty = "data" /\ o.m.st = "SEL" /\ Closes(g) /\ (g.sys \in o.m.dead \/ \E i \in 1..Len(o.done) : o.done[i].res = "ok" /\ o.done[i].sys = g.sys)
               THEN {O(o.m), [O(o.m) EXCEPT !.s9 = IF g.s = 9 /\ o.m.cb THEN <<[f |-> g.f, sys |-> g.sys]>> ELSE <<>>]} ELSE {}
RECURSIVE RxAll(_, _, _)
RxAll(o, gs, t) == IF gs = <<>> THEN {o} ELSE UNION {RxAll(Join(o, p), Tail(gs), t) : p \in Rx(o.m, Head(gs), t) \cup Again(o, Head(gs))}

(* ------------------------------ application ------------------------------ *)
(* Why a send fails: "" if it does not *)
Refusal(m) == IF ~m.on \/ ~m.link THEN "notconn" ELSE IF m.st # "SEL" THEN "notsel" ELSE ""
AppW(c, wait) == IF c.w = 2 THEN (IF wait THEN 1 ELSE 0) ELSE c.w      \* 2: optional
(* Requests started together; sys: token -> the system bytes each went out with *)
Call(m, cs, sys, t) ==
  IF Refusal(m) # "" THEN [O(m) EXCEPT !.done = [i \in 1..Len(cs) |-> Failed(cs[i].tok, Refusal(m))]]
  ELSE [O([m EXCEPT !.open = [x \in {cs[i].tok : i \in 1..Len(cs)} |->
             LET c == cs[CHOOSE i \in 1..Len(cs) : cs[i].tok = x] IN
             [sys |-> sys[x], s |-> c.s, f |-> c.f, w |-> AppW(c, TRUE), sess |-> m.sess, lo |-> t.lo, hi |-> t.hi, lost |-> FALSE]] @@ m.open])
        EXCEPT !.out = [i \in 1..Len(cs) |-> PD(cs[i].s, cs[i].f, AppW(cs[i], TRUE), m.sess, sys[cs[i].tok], cs[i].body)]]
(* A message without waiting for a reply; sys: its system bytes. The result is a "done" with token "" *)
SendMsg(m, c, sys) ==
  IF Refusal(m) # "" THEN [O(m) EXCEPT !.done = <<Failed("", Refusal(m))>>]
  ELSE [O(m) EXCEPT !.out = <<PD(c.s, c.f, AppW(c, FALSE), m.sess, sys, c.body)>>, !.done = <<Failed("", "sent")>>]
Enable(m) == [m EXCEPT !.on = TRUE]
Disable(m, t) == [Lost(m, t) EXCEPT !.on = FALSE, !.gone = <<>>]

(* ------------------------------- invariants ------------------------------- *)
HsmsInv(m) ==
  /\ m.st # "NC" <=> m.link
  /\ m.link => m.on
  /\ \A x, y \in DOMAIN m.open : x # y => m.open[x].sys # m.open[y].sys
  /\ m.sel # "" => m.link /\ m.role = "A"
=============================================================================
