------------------------------- MODULE Backoff -------------------------------
(* How an active endpoint tries to connect. b is one record:

     base, max, limit, auto, t5   configuration (seconds)
     on, link                     enabled; connected
     n                            failed attempts in a row
     at                           <<[lo, hi]>>: when the next attempt comes, ms;
                                  <<>>: none will come
   s is how late an attempt may come, ms.                                     *)
EXTENDS Integers, Sequences

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
NewB(e) == [base |-> e.base, max |-> e.max, limit |-> e.limit, auto |-> e.auto, t5 |-> e.t5, on |-> FALSE, link |-> FALSE, n |-> 0, at |-> <<>>]
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
Delay(b, k) == 1000 * (IF k > 12 THEN b.max ELSE Min(b.base * Pow2(k - 1), b.max))
(* The attempt at t failed *)
Failed(b, t, s) ==
  LET k == b.n + 1 d == Delay(b, k) IN
  IF ~b.auto \/ (b.limit > 0 /\ k > b.limit) THEN [b EXCEPT !.n = 0, !.at = <<>>]
  ELSE [b EXCEPT !.n = k, !.at = <<[lo |-> t.lo + d, hi |-> t.hi + d + s]>>]
Enabled(b, t, s) == [b EXCEPT !.on = TRUE, !.at = <<[lo |-> t.lo, hi |-> t.hi + s]>>]
(* After Disable and Enable the count may go on or start anew, and a pause that had begun may go on *)
EnabledAgain(b, t, s) ==
  {[Enabled(b, t, s) EXCEPT !.n = k, !.at = a] : k \in {0, b.n},
    a \in {<<[lo |-> t.lo, hi |-> t.hi + s]>>} \cup (IF b.at = <<>> THEN {} ELSE {<<[lo |-> Max(t.lo, b.at[1].lo), hi |-> Max(t.hi, b.at[1].hi) + s]>>})}
Connected(b) == [b EXCEPT !.link = TRUE, !.n = 0, !.at = <<>>]
Lost(b, t, s) == [b EXCEPT !.link = FALSE, !.at = IF b.auto THEN <<[lo |-> t.lo + 1000 * b.t5, hi |-> t.hi + 1000 * b.t5 + s]>> ELSE <<>>]
Disabled(b, t, s) == [(IF b.link THEN Lost(b, t, s) ELSE b) EXCEPT !.on = FALSE]
(* What b may have become by time t if nobody listened so far *)
RECURSIVE Idle(_, _, _)
Idle(b, t, s) ==
  IF ~b.on \/ b.link \/ b.at = <<>> \/ b.at[1].lo > t THEN {b}
  ELSE LET a == b.at[1] IN
       (IF a.hi >= t THEN {[b EXCEPT !.at = <<[lo |-> t, hi |-> a.hi]>>]} ELSE {})
       \cup Idle(Failed(b, [lo |-> a.lo, hi |-> Min(a.hi, t)], s), t, s)
BackoffInv(b) == /\ b.link => b.on /\ b.at = <<>> /\ b.n = 0
                 /\ b.limit > 0 => b.n <= b.limit
=============================================================================
