-------------------------------- MODULE Comm --------------------------------
(* Establishing GEM communication, as somebody sees it who plays the other
   side, calls the handler and looks at the clock (in ms). What he knows:
     on   the handler is enabled            up   the HSMS session is SELECTED
     comm "no"  it cannot be COMMUNICATING
          "c"   it got a reason to be at cAt: Slack later it is
          "d"   it may have been when the session ended at dAt: Tick later it
                is not any more, unless the session came back
          "m"   the session came back too soon to tell
     att  its S1F13s of this session that are open: [id, t]
     old  when those of sessions before were sent; their failing may still
          set it back to waiting
     end  when the last one was refused or timed out: <<>> or <<t>>
     dirty: S1F13s overlap, so that nothing is known of the delay between them
     due  when the next S1F13 comes at the latest
     lo, hi   how many HandlerCommunicating events may still come
     waits    open WaitForCommunicating calls, could: it may return true
     calls    what was known when open requests began
     asked    when the S1F13 came that it still has to answer
     ending   Disable is under way: what comes may still count
     bad  what is wrong                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Tick == 500                        \* how often the handler looks at the session
Margin == 50
Max(a, b) == IF a > b THEN a ELSE b
NewO(c) == [host |-> c.host, t3 |-> c.t3, delay |-> c.delay, on |-> FALSE, up |-> FALSE, upAt |-> 0, comm |-> "no", cAt |-> 0, dAt |-> 0,
            att |-> <<>>, old |-> {}, end |-> <<>>, dirty |-> FALSE, due |-> 0, lo |-> 0, hi |-> 0, waits |-> {}, calls |-> {}, asked |-> <<>>, ending |-> FALSE, bad |-> ""]
Fail(o, why) == IF o.bad = "" THEN [o EXCEPT !.bad = why] ELSE o
If(o, cond, why) == IF cond THEN Fail(o, why) ELSE o
Know(o, t, S) == CASE o.comm = "no" -> "no"
                   [] o.comm = "c" -> IF t > o.cAt + S THEN "yes" ELSE "maybe"
                   [] o.comm = "d" -> IF t > o.dAt + Tick + S THEN "no" ELSE "maybe"
                   [] OTHER -> "maybe"
Pause(o) == IF o.host THEN o.delay ELSE Tick        \* between two attempts
Alive(o, t, S) == {s \in o.old : s + o.t3 + Pause(o) + S >= t}
Open(o, t, S) == SelectSeq(o.att, LAMBDA a : a.t + o.t3 + S >= t)
(* When the next S1F13 comes at the latest, not before t + d *)
Latest(o, t, d, S) == LET q == {a.t + o.t3 + Pause(o) : a \in {o.att[i] : i \in DOMAIN o.att}} \cup {s + o.t3 + Pause(o) : s \in o.old} \cup {t + d} IN
                      CHOOSE x \in q : \A y \in q : y <= x
(* Forgets what does not matter any more *)
Tidy(o, t, S) == LET r == [o EXCEPT !.old = Alive(o, t, S)] IN
                 IF r.comm = "d" /\ Know(r, t, S) = "no" THEN [r EXCEPT !.comm = "no"] ELSE r
Could(o) == IF o.comm = "no" THEN o ELSE [o EXCEPT !.waits = {[w EXCEPT !.could = TRUE] : w \in o.waits}]
(* A reason to be COMMUNICATING *)
Cause(o, t, S) ==
  IF o.ending THEN Could([o EXCEPT !.comm = "m", !.hi = @ + 1])
  ELSE IF ~o.on \/ ~o.up \/ o.comm = "c" THEN o
  ELSE Could([o EXCEPT !.comm = "c", !.cAt = t, !.hi = @ + 1, !.lo = IF o.comm = "no" THEN @ + 1 ELSE @, !.end = <<>>])
(* What is open becomes old *)
Stale(o) == [o EXCEPT !.old = @ \cup {o.att[i].t : i \in DOMAIN o.att}, !.att = <<>>, !.end = <<>>, !.asked = <<>>]
Ends(o, t, S) == [Stale(o) EXCEPT !.up = FALSE, !.lo = IF o.comm = "c" /\ t <= o.cAt + S THEN 0 ELSE @]
(* An S1F13 may have been lost with the session: its failing is waited for    *)
Down(o, t, S) == IF ~o.up THEN o ELSE LET r == [Ends(o, t, S) EXCEPT !.due = Max(@, t + o.t3 + Pause(o))] IN IF o.comm \in {"c", "m"} THEN [r EXCEPT !.comm = "d", !.dAt = t] ELSE r
Up(o, t, S) == LET r == [o EXCEPT !.up = TRUE, !.upAt = t, !.comm = IF @ = "d" THEN "m" ELSE @] IN
               [r EXCEPT !.due = Max(Latest(r, t, Tick, S), r.due)]
(* The handler's S1F13 *)
Asks(o, t, id, S) ==
  IF ~o.up \/ ~o.on THEN [o EXCEPT !.old = @ \cup {t}]     \* crossed the end of the session
  ELSE LET op == Open(o, t - 2 * S, 0 - S)          \* surely open
           quiet == Open(o, t, S) = <<>> /\ Alive(o, t, S) = {}
           dirty == IF quiet THEN FALSE ELSE o.dirty \/ Alive(o, t, S) # {}
           last == IF o.end # <<>> THEN o.end[1] ELSE IF o.att # <<>> THEN o.att[Len(o.att)].t + o.t3 ELSE -100000
           q1 == If(o, Know(o, t, S) = "yes", "S1F13 although communicating")
           q2 == If(q1, ~dirty /\ o.end = <<>> /\ \E i \in DOMAIN o.att : t < o.att[i].t + o.t3 - Margin, "S1F13 while one is open")
           q3 == If(q2, ~dirty /\ o.host /\ t < last + o.delay - Margin, "S1F13 before the delay is over")
           q4 == If(q3, o.comm = "no" /\ t > o.due + S, "S1F13 late") IN
       [q4 EXCEPT !.comm = IF @ = "m" THEN "no" ELSE @, !.dirty = dirty,
                  !.att = Append(Open(o, t, S), [id |-> id, t |-> t]), !.end = <<>>,
                  !.due = Max(IF dirty THEN Latest(o, t, 0, S) ELSE 0, t + o.t3 + Pause(o))]
(* S1F14 that answers nothing that is open. A refusal makes a host wait; what
   it does to an equipment's attempts is left open                            *)
Unasked(o, t, ack, S) == IF ack = 0 THEN Cause(o, t, S) ELSE IF o.host THEN [o EXCEPT !.due = Max(@, t + o.delay)]
                         ELSE [o EXCEPT !.old = @ \cup {t + o.delay}, !.due = Max(@, t + o.delay + o.t3 + Tick)]
Answered(o, t, id, ack, S) ==
  LET is == {i \in DOMAIN o.att : o.att[i].id = id} IN
  IF is = {} \/ ~o.up THEN (IF o.up THEN Unasked(o, t, ack, S) ELSE o)
  ELSE LET i == CHOOSE i \in is : TRUE a == o.att[i]
           rest == SubSeq(o.att, 1, i - 1) \o SubSeq(o.att, i + 1, Len(o.att)) IN
       IF t > a.t + o.t3 THEN Unasked(o, t, ack, S)
       ELSE IF ack = 0 THEN Cause([o EXCEPT !.att = rest], t, S)
       ELSE [o EXCEPT !.att = rest, !.end = <<t>>, !.due = IF o.dirty \/ rest # <<>> THEN Latest([o EXCEPT !.att = rest], t, Pause(o), S) ELSE t + Pause(o)]
Sees(o, t, s, S) ==
  LET k == Know(o, t, S)
      q == If(If(o, s = "COMMUNICATING" /\ k = "no", "COMMUNICATING without reason"), s # "COMMUNICATING" /\ k = "yes", "not COMMUNICATING any more") IN
  IF o.comm = "m" /\ t > o.upAt + S
  THEN IF s = "COMMUNICATING" THEN [q EXCEPT !.comm = "c", !.cAt = o.upAt] ELSE [q EXCEPT !.comm = "no", !.due = Max(@, Latest(o, t, Tick, S))]
  ELSE q
(* A request failed with ErrNotCommunicating (nc) or not, or a wait ended     *)
Called(o, t, id, nc, S) ==
  LET c == CHOOSE c \in o.calls : c.id = id  k == Know(o, t, S)
      q == If(If(o, nc /\ c.k = "yes" /\ k = "yes", "refused although communicating"), ~nc /\ c.k = "no" /\ k = "no" /\ ~c.could, "not refused although not communicating") IN
  [q EXCEPT !.calls = @ \ {c}]
Waited(o, t, id, res, S) ==
  LET w == CHOOSE w \in o.waits : w.id = id
      q == IF res THEN If(o, ~w.could, "waited for COMMUNICATING, which is not reached")
           ELSE If(If(o, w.ms <= 0 \/ t < w.t + w.ms - (Margin \div 10), "gave up waiting too early"), o.comm = "c" /\ o.cAt + S < w.t + w.ms, "missed COMMUNICATING while waiting") IN
  [q EXCEPT !.waits = @ \ {w}]
Ev(o0, x, S) ==
  LET t == x.t o == Tidy(o0, t, S) IN
  CASE x.k = "en" -> IF o.on THEN o ELSE [o EXCEPT !.on = TRUE, !.due = 0]
    [] x.k = "dis" -> IF ~o.on THEN o ELSE LET r == Ends(o, t, S) IN [r EXCEPT !.on = FALSE, !.ending = TRUE, !.comm = IF @ = "no" THEN "no" ELSE "m"]
    [] x.k = "disd" -> IF o.on THEN o ELSE [o EXCEPT !.comm = "no", !.lo = 0, !.ending = FALSE]
    [] x.k = "up" -> Up(o, t, S)
    [] x.k = "down" -> Down(o, t, S)
    [] x.k = "s13" -> Asks(o, t, x.id, S)
    [] x.k = "ans" -> Answered(o, t, x.id, x.ack, S)
    [] x.k = "p13" -> [Cause(o, t, S) EXCEPT !.asked = IF o.on /\ o.up THEN <<t>> ELSE <<>>]
    [] x.k = "p14" -> [If(o, x.ack # 0, "S1F13 is refused") EXCEPT !.asked = <<>>]
    [] x.k = "uns" -> IF o.ending /\ x.ack = 0 THEN Cause(o, t, S) ELSE IF o.up /\ o.on THEN Unasked(o, t, x.ack, S) ELSE o
    [] x.k = "ev" -> [If(o, o.hi = 0, "HandlerCommunicating without reason") EXCEPT !.hi = Max(@ - 1, 0), !.lo = Max(@ - 1, 0)]
    [] x.k = "oth" -> If(o, Know(o, t, S) = "no" /\ o.up, "a message although not communicating")
    [] x.k = "st" -> Sees(o, t, x.s, S)
    [] x.k = "w0" -> [o EXCEPT !.waits = @ \cup {[id |-> x.id, t |-> t, ms |-> x.ms, could |-> o.comm # "no"]}]
    [] x.k = "w1" -> Waited(o, t, x.id, x.res, S)
    [] x.k = "c0" -> [o EXCEPT !.calls = @ \cup {[id |-> x.id, k |-> Know(o, t, S), could |-> FALSE]}]
    [] x.k = "c1" -> Called(o, t, x.id, x.nc, S)
(* Any reason while a request is under way may let it pass                    *)
EvC(o, x, S) == LET r == Ev(o, x, S) IN IF r.comm # "no" THEN [r EXCEPT !.calls = {[c EXCEPT !.could = TRUE] : c \in r.calls}] ELSE r
(* By now, t, it should have done what it has to                              *)
Overdue(o0, t, S) ==
  LET o == Tidy(o0, t, S)
      q1 == If(o, o.lo > 0 /\ t > o.cAt + S, "no HandlerCommunicating")
      q2 == If(q1, o.on /\ o.up /\ o.comm = "no" /\ t > o.due + S, "no S1F13")
      q3 == If(q2, o.up /\ o.asked # <<>> /\ t > o.asked[1] + S, "S1F13 is not answered")
      q4 == If(q3, \E w \in o.waits : (o.comm = "c" /\ t > Max(o.cAt, w.t) + S) \/ (w.ms > 0 /\ t > w.t + w.ms + S), "still waits for COMMUNICATING")
  IN q4
RECURSIVE Run(_, _, _, _)
Run(o, log, i, S) == IF i > Len(log) \/ o.bad # "" THEN o ELSE Run(EvC(o, log[i], S), log, i + 1, S)
=============================================================================
