----------------------------- MODULE GenMsgLog -----------------------------
(* Random scripts for "vdrv msglog". *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES sel, via, hist, n
vars == <<sel, via, hist, n>>
Max == atoi(IOEnv.DEPTH)
R(x, S) == RandomElement(S)
Chance(x, p) == R(x, 1..100) <= p
Pick(x, s) == s[R(x, 1..Len(s))]
Types == {"select.req", "select.rsp", "deselect.req", "deselect.rsp", "linktest.req", "linktest.rsp", "reject.req", "separate.req", "data message", "", "junk"}
Excl(x) == IF Chance(x, 40) THEN <<>> ELSE [i \in 1..R(x, 1..4) |-> R(x + i, Types)]
Cfg(x) == [en |-> Chance(x, 85), mode |-> Pick(x, <<"unset", "sml", "sml", "bin", "bin", "both", "both">>), ctrl |-> Chance(x, 65), excl |-> Excl(x), w |-> R(x, 0..1)]
Do(op, s2) == \E x \in {op} : hist' = Append(hist, x) /\ sel' = s2 /\ via' = via
Data == [op |-> "in", s |-> Pick(n, <<1, 2, 3, 5, 7, 64, 127>>), f |-> 2 * R(n, 0..127) + 1, w |-> Chance(n, 60)]
Known == [op |-> "in", s |-> 99, f |-> Pick(n, <<1, 3, 5, 7>>), w |-> Chance(n, 60)]
Sec == [op |-> "in", s |-> R(n, 1..9), f |-> 2 * R(n, 1..127), w |-> FALSE]
Burst == [op |-> "burst", out |-> R(n, 0..6), rep |-> R(n, 0..3), ins |-> R(n, 0..6)]
Ask == [op |-> "ask", how |-> Pick(n, <<"reply", "reply", "reply", "abort", "none">>)]
Step == \E p \in {R(n, 1..100)} :
  IF ~sel
  THEN IF p <= 40 THEN Do([op |-> "ctl", t |-> 1], TRUE)
       ELSE IF p <= 55 THEN Do([op |-> "cfg", cfg |-> Cfg(n)], sel)
       ELSE IF p <= 70 THEN Do(Data, sel)
       ELSE Do([op |-> "ctl", t |-> Pick(n, <<2, 4, 5, 6, 7>>)], sel)
  ELSE IF p <= 20 THEN Do([op |-> "cfg", cfg |-> Cfg(n)], sel)
  ELSE IF p <= 30 THEN Do(Data, sel)
  ELSE IF p <= 50 THEN Do(Known, sel)
  ELSE IF p <= 55 THEN Do(Sec, sel)
  ELSE IF p <= 65 THEN Do([op |-> "send", resp |-> Chance(n, 30)], sel)
  ELSE IF p <= 75 THEN Do(Ask, sel)
  ELSE IF p <= 87 THEN Do(Burst, sel)
  ELSE IF p <= 95 THEN Do([op |-> "ctl", t |-> Pick(n, <<1, 2, 4, 5, 6, 7>>)], sel)
  ELSE IF via = "proto" THEN Do([op |-> "ctl", t |-> 3], FALSE) ELSE Do(Known, sel)
Init == sel = FALSE /\ via = "" /\ hist = <<>> /\ n = 0
Next == /\ n' = n + 1 /\ n < Max
        /\ IF n = 0 THEN \E v \in {Pick(n, <<"proto", "proto", "proto", "gem", "file">>)} : \E c \in {Cfg(n)} :
                /\ via' = v /\ sel' = (v # "proto")
                /\ hist' = << [op |-> "new", via |-> v, cfg |-> [c EXCEPT !.w = 0, !.en = IF v = "proto" THEN FALSE ELSE TRUE]] >>
           ELSE Step
        /\ IF n + 1 = Max THEN PrintT("SCN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
