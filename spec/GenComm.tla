------------------------------ MODULE GenComm ------------------------------
(* Random scripts of the other side of a handler for "vdrv comm": sessions come
   and go, S1F13s are accepted, refused, ignored, answered late or crossed.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES on, up, clk, hist, n, cfg
vars == <<on, up, clk, hist, n, cfg>>
Span == atoi(IOEnv.DEPTH) * 400
R(x, S) == RandomElement(S)
Chance(x, p) == R(x, 1..100) <= p
Pick(x, s) == s[R(x, 1..Len(s))]
Ways == <<"accept", "accept", "refuse", "refuse", "refuse", "ignore", "ignore", "abort", "other", "bad", "late", "laterefuse", "slow", "slowrefuse", "crossrefuse", "crossignore", "drop">>
New == [op |-> "new", host |-> Chance(n, 60), t3 |-> Pick(n, <<1000, 1000, 2000>>), delay |-> Pick(n, <<200, 400, 700, 700, 1500>>), active |-> Chance(n, 30)]
Do(op, on2, up2, dt) == \E e \in {op} : on' = on2 /\ up' = up2 /\ clk' = clk + dt /\ hist' = Append(hist, e)
Ways0 == [i \in 1..R(n, 1..4) |-> Pick(n + i, Ways)]
React(q) == Do([op |-> "react", q |-> q], on, up, 10)
Wait(ms) == Do([op |-> "wait", ms |-> ms], on, up, ms)
Idle == Wait(Pick(n, <<30, 300, 700, 1200, cfg.delay + 900, cfg.t3 + 300, cfg.t3 + cfg.delay + 900>>))
Ask == \/ Do([op |-> "waitcomm", ms |-> Pick(n, <<100, 700, 1500, 3000>>)], on, up, 5)
Call == Do([op |-> "call", kind |-> R(n, 0..15)], on, up, 30)
Down == Do([op |-> "down", how |-> Pick(n, <<"fin", "rst", "sep", "deselect", "deselect">>)], on, FALSE, 30)
Step == \E p \in {R(n, 1..100)} :
  IF ~on
  THEN IF p <= 70 THEN Do([op |-> "enable"], TRUE, FALSE, 10) ELSE IF p <= 80 THEN Call ELSE IF p <= 90 THEN Ask ELSE Wait(R(n, {20, 300}))
  ELSE IF ~up
  THEN IF p <= 20 THEN \E q \in {Ways0} : React(q)
       ELSE IF p <= 70 THEN Do([op |-> "up"], TRUE, TRUE, 100)
       ELSE IF p <= 78 THEN Ask ELSE IF p <= 84 THEN Call
       ELSE IF p <= 88 THEN Do([op |-> "disable", with |-> ""], FALSE, FALSE, 100)
       ELSE IF p <= 97 THEN Wait(Pick(n, <<20, 200, 1300, 1300>>)) ELSE Do([op |-> "enable"], TRUE, FALSE, 10)
  ELSE IF p <= 16 THEN \E q \in {Ways0} : React(q)
       ELSE IF p <= 50 THEN Idle
       ELSE IF p <= 62 THEN Do([op |-> "p13", tick |-> Chance(n, 50)], on, up, 20)
       ELSE IF p <= 68 THEN Do([op |-> "uns", ack |-> Pick(n, <<0, 0, 1, 2, 255>>)], on, up, 20)
       ELSE IF p <= 76 THEN Ask
       ELSE IF p <= 83 THEN Call
       ELSE IF p <= 94 THEN Down
       ELSE IF p <= 99 THEN Do([op |-> "disable", with |-> Pick(n, <<"", "p13", "p13", "uns">>)], FALSE, FALSE, 300)
       ELSE Do([op |-> "enable"], TRUE, up, 10)
Init == on = FALSE /\ up = FALSE /\ clk = 0 /\ hist = <<>> /\ n = 0 /\ cfg = <<>>
Next == /\ n' = n + 1 /\ n < 30 /\ clk < Span
        /\ IF n = 0 THEN \E e \in {New} : cfg' = e /\ hist' = <<e>> /\ clk' = 0 /\ UNCHANGED <<on, up>> ELSE Step /\ UNCHANGED cfg
        /\ IF clk' >= Span \/ n + 1 = 30 THEN PrintT("SCN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
