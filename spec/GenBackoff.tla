----------------------------- MODULE GenBackoff -----------------------------
(* Random behaviours of Backoff as scenarios for "vdrv backoff": the peer lets
   attempts fail, listens between them, or takes one.                        *)
EXTENDS Backoff, TLC, Json, IOUtils
VARIABLES b, clk, hist, n
vars == <<b, clk, hist, n>>
Span == atoi(IOEnv.DEPTH) * 1000     \* how long a scenario takes
R(x, S) == RandomElement(S)
Chance(x, p) == R(x, 1..100) <= p
Pick(x, s) == s[R(x, 1..Len(s))]
New == [op |-> "new", base |-> Pick(n, <<1, 1, 1, 2, 3>>), max |-> Pick(n, <<1, 2, 3, 4, 5, 8, 16, 60>>), limit |-> Pick(n, <<0, 0, 1, 2, 3, 4, 10>>), auto |-> Chance(n, 88), t5 |-> Pick(n, <<1, 1, 2>>)]
T == [lo |-> clk, hi |-> clk]
Do(op, b2, dt) == \E e \in {op} : b' = b2 /\ clk' = clk + dt /\ hist' = Append(hist, e)
Next0 == b.at[1].lo
Skip == LET d == Next0 - clk + 450 IN Do([op |-> "wait", ms |-> d], Failed(b, b.at[1], 0), d)
Early == LET d == Next0 - clk - 400 IN IF d < 300 THEN Skip ELSE Do([op |-> "listen", ms |-> d], b, d)
Take == LET d == Next0 - clk IN
        IF d > 700 /\ Chance(n, 60)
        THEN Do([op |-> "wait", ms |-> d - 400], b, d - 400)                \* then listens just before
        ELSE Do([op |-> "listen", ms |-> d + 3000], Connected(b), d + 2)
Live == \E p \in {R(n, 1..100)} : IF p <= 55 THEN Skip ELSE IF p <= 65 THEN Early ELSE IF p <= 92 THEN Take
        ELSE Do([op |-> "disable"], Disabled(b, T, 0), 5)
Out == IF Chance(n, 60) THEN Do([op |-> "listen", ms |-> R(n, {700, 1500, 3000, 5000})], b, 5000) ELSE Do([op |-> "disable"], Disabled(b, T, 0), 5)
Step == IF ~b.on THEN (IF Chance(n, 25) THEN Do([op |-> "listen", ms |-> R(n, {300, 2500})], b, 2500) ELSE Do([op |-> "enable"], [Enabled(b, T, 0) EXCEPT !.at = IF b.at # <<>> THEN <<[lo |-> Max(clk, b.at[1].lo), hi |-> 0]>> ELSE @], 2))
        ELSE IF b.link THEN (IF Chance(n, 85) THEN Do([op |-> "lose", how |-> Pick(n, <<"fin", "rst", "sep">>)], Lost(b, T, 0), 2) ELSE Do([op |-> "disable"], Disabled(b, T, 0), 250))
        ELSE IF b.at = <<>> THEN Out ELSE Live
Init == b = <<>> /\ clk = 0 /\ hist = <<>> /\ n = 0
Next == /\ n' = n + 1 /\ n < 60 /\ clk < Span
        /\ IF n = 0 THEN \E e \in {New} : b' = NewB(e) /\ hist' = <<e>> /\ clk' = 0 ELSE Step
        /\ IF clk' >= Span \/ n + 1 = 60 THEN PrintT("SCN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Inv == n > 0 => BackoffInv(b)
=============================================================================
