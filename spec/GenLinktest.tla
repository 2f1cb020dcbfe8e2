----------------------------- MODULE GenLinktest -----------------------------
(* Random scripts for "vdrv linktest". DEPTH: seconds a script takes. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES st, sel, active, clk, hist, n
vars == <<st, sel, active, clk, hist, n>>
Span == atoi(IOEnv.DEPTH) * 1000
R(x, S) == RandomElement(S)
Chance(x, p) == R(x, 1..100) <= p
Pick(x, s) == s[R(x, 1..Len(s))]
New == [op |-> "new", active |-> Chance(n, 45), lt |-> Pick(n, <<1, 1, 1, 1, 2, 2, 3, 0>>), t6 |-> Pick(n, <<1, 2, 2, 3, 3, 4>>)]
Do(op, st2, sel2, dt) == \E x \in {op} : hist' = Append(hist, x) /\ st' = st2 /\ sel' = sel2 /\ clk' = clk + dt /\ active' = active
Policy == [op |-> "policy", how |-> Pick(n, <<"good", "good", "late", "late", "none", "wrong", "type", "data", "cross", "twice">>), ms |-> Pick(n, <<100, 400, 800, 1300, 1800, 2500>>)]
Wait == LET d == Pick(n, <<100, 500, 900, 1100, 1500, 2100, 3000>>) IN [op |-> "wait", ms |-> d]
Call == [op |-> "call", ms |-> Pick(n, <<0, 50, 300, 1100, 2200>>), tease |-> Chance(n, 60)]
Live == \E p \in {R(n, 1..100)} :
  IF p <= 35 THEN \E w \in {Wait} : Do(w, st, sel, w.ms)
  ELSE IF p <= 60 THEN Do(Policy, st, sel, 0)
  ELSE IF p <= 80 THEN (IF sel THEN Do(Call, st, sel, 0) ELSE Do([op |-> "sel"], st, TRUE, 30))
  ELSE IF p <= 85 THEN (IF sel THEN Do([op |-> "desel"], st, FALSE, 30) ELSE Do([op |-> "sel"], st, TRUE, 30))
  ELSE IF p <= 95 THEN Do([op |-> "drop", how |-> Pick(n, <<"fin", "rst", "sep">>)], "down", FALSE, 100)
  ELSE Do([op |-> "disable"], "off", FALSE, 200)
Step == CASE st = "up" -> Live
          [] st = "down" -> IF Chance(n, 25) THEN Do([op |-> "lt", v |-> Pick(n, <<1, 1, 2, 0>>)], st, FALSE, 0)
                            ELSE Do([op |-> "up"], "up", active, IF active THEN 1100 ELSE 30)
          [] OTHER -> Do([op |-> "enable"], "down", FALSE, 10)
Init == st = "off" /\ sel = FALSE /\ active = FALSE /\ clk = 0 /\ hist = <<>> /\ n = 0
Next == /\ n' = n + 1 /\ n < 60 /\ clk < Span
        /\ IF n = 0 THEN \E x \in {New} : hist' = <<x, [op |-> "enable"]>> /\ active' = x.active /\ st' = "down" /\ sel' = FALSE /\ clk' = 0 ELSE Step
        /\ IF clk' >= Span \/ n + 1 = 60 THEN PrintT("SCN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
