------------------------------ MODULE Linktest ------------------------------
(* How an endpoint tests its link, as its peer sees it. b is one record:

     lt, t6      interval of the tests, time an answer may take (seconds)
     active      it connects, and tests from its select on
     link        connected; t0: not before this time, ms
     armed       it tests
     cnt         tests on this connection
     open        <<[sys, at]>>: the test that waits for its answer; or <<>>
     due         when the next test comes at the latest, ms
     calls       system bytes of the application's open requests
     own         system bytes of the peer's tests to be answered
     why         the connection is to end
   S is the uncertainty of times, ms, and how late a test may come.           *)
EXTENDS Integers, Sequences

NewB(e) == [lt |-> e.lt, t6 |-> e.t6, active |-> e.active, link |-> FALSE, t0 |-> 0, armed |-> FALSE, cnt |-> 0,
            open |-> <<>>, due |-> 0, calls |-> {}, own |-> {}, why |-> FALSE]
Tests(b) == b.link /\ b.armed /\ b.lt > 0 /\ ~b.why
Overdue(b, t, S) == Tests(b) /\ t > b.due + S
Up(b, t0, t1) == [b EXCEPT !.link = TRUE, !.t0 = t0, !.armed = ~b.active, !.cnt = 0, !.open = <<>>, !.due = t1, !.calls = {}, !.own = {}, !.why = FALSE]
Selected(b, t) == IF b.active /\ ~b.armed THEN [b EXCEPT !.armed = TRUE, !.t0 = t, !.due = t] ELSE b
(* A test is due: one at once, and one more per interval; never two at a time *)
MayTest(b, t, S) == /\ b.link /\ b.armed /\ b.lt > 0
                    /\ b.open # <<>> => t + S >= b.open[1].at + 1000 * b.t6
                    /\ b.cnt <= (t + S - b.t0) \div (1000 * b.lt)
Fresh(b, sys) == sys \notin b.calls /\ (b.open # <<>> => sys # b.open[1].sys)
Tested(b, sys, t) == [b EXCEPT !.cnt = @ + 1, !.open = <<[sys |-> sys, at |-> t]>>, !.due = t + 1000 * (b.t6 + b.lt)]
Answered(b, sys, t) == IF b.open # <<>> /\ b.open[1].sys = sys
                       THEN [b EXCEPT !.open = <<>>, !.due = IF t + 1000 * b.lt < @ THEN t + 1000 * b.lt ELSE @] ELSE b
(* The endpoint closes the connection: not by itself, unless a test stays unanswered *)
MayClose(b, t, S) == b.why \/ (b.open # <<>> /\ t + S >= b.open[1].at + 1000 * b.t6)
Down(b) == [b EXCEPT !.link = FALSE, !.armed = FALSE, !.cnt = 0, !.open = <<>>, !.calls = {}, !.own = {}]
LinktestInv(b) == /\ b.armed => b.link
                  /\ b.open # <<>> => b.link
                  /\ b.lt = 0 => b.cnt = 0
=============================================================================
