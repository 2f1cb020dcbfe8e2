------------------------------ MODULE MCBackoff ------------------------------
(* Backoff exhaustively for small configurations, one attempt after the other;
   times are relative to the last event.                                     *)
EXTENDS Backoff, FiniteSets
VARIABLES b, fails      \* fails: attempts in a row that failed
vars == <<b, fails>>
Z == [lo |-> 0, hi |-> 0]
Cfgs == {[base |-> x, max |-> y, limit |-> z, auto |-> a, t5 |-> t] : x \in 1..3, y \in {1, 2, 3, 5, 8}, z \in 0..4, a \in BOOLEAN, t \in 1..2}
Init == \E c \in Cfgs : b = NewB(c) /\ fails = 0
Due == b.on /\ ~b.link /\ b.at # <<>>
Fail == Due /\ fails < 7 /\ b' = Failed(b, Z, 0) /\ fails' = IF b'.at = <<>> THEN 0 ELSE fails + 1
Take == Due /\ b' = Connected(b) /\ fails' = 0
Lose == b.link /\ b' = Lost(b, Z, 0) /\ fails' = 0
Enable == ~b.on /\ b' \in (IF b.n = 0 /\ b.at = <<>> THEN {Enabled(b, Z, 0)} ELSE EnabledAgain(b, Z, 0)) /\ fails' = b'.n
Disable == b.on /\ b' = Disabled(b, Z, 0) /\ fails' = fails
Next == Fail \/ Take \/ Lose \/ Enable \/ Disable
Spec == Init /\ [][Next]_vars
(* C10, step by step *)
StepOK ==
  /\ (Fail /\ b'.at # <<>>) => LET d == b'.at[1].lo IN
        /\ d = 1000 * Min(b.max, b.base * Pow2(b'.n - 1)) /\ d >= 1000 * Min(b.base, b.max) /\ d <= 1000 * b.max
        /\ b'.n = b.n + 1
  /\ (Fail /\ b'.at = <<>>) => ~b.auto \/ (b.limit > 0 /\ b.n = b.limit)
  /\ (Fail /\ ~b.auto) => b'.at = <<>>
  /\ (Fail /\ b.auto /\ b.limit = 0) => b'.at # <<>>
  /\ Lose => b'.n = 0 /\ (b'.at # <<>> <=> b.auto)
Steps == [][StepOK]_vars
Inv == BackoffInv(b) /\ (b.on => b.n = fails)
=============================================================================
