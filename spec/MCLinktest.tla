----------------------------- MODULE MCLinktest -----------------------------
(* The loop an endpoint tests with (a ticker that keeps one tick, and a wait
   for the answer), in whole seconds, against what Linktest allows: b is what
   the peer sees of it. The peer answers, answers late, wrongly or not at all,
   and connections come and go; a loop outlives its connection while it waits
   for an answer.                                                             *)
EXTENDS Linktest
CONSTANTS Last
VARIABLES b, clk, loop, old, sys
(* loop, old: <<[st, from, tick, used, sys]>>: st = "send" | "wait" | "idle"; used: ticks taken; stop: to end *)
vars == <<b, clk, loop, old, sys>>
Init == /\ \E lt \in 0..3, t6 \in 1..3, a \in BOOLEAN : b = NewB([lt |-> lt, t6 |-> t6, active |-> a])
        /\ clk = 0 /\ loop = <<>> /\ old = <<>> /\ sys = 0
Now == 1000 * clk
L0 == [st |-> "send", from |-> clk, next |-> clk + b.lt, tick |-> FALSE, at |-> 0, sys |-> 0]
Start == IF b.lt > 0 THEN <<L0>> ELSE <<>>
Conn == ~b.link /\ b' = Up(b, Now, Now) /\ loop' = (IF b.active THEN <<>> ELSE Start) /\ UNCHANGED <<clk, old, sys>>
Sel == b.link /\ b.active /\ ~b.armed /\ b' = Selected(b, Now) /\ loop' = Start /\ UNCHANGED <<clk, old, sys>>
Send == /\ loop # <<>> /\ loop[1].st = "send"
        /\ sys' = sys + 1 /\ b' = Tested(b, sys', Now)
        /\ loop' = <<[loop[1] EXCEPT !.st = "wait", !.at = clk, !.sys = sys']>> /\ UNCHANGED <<clk, old>>
Answer == /\ loop # <<>> /\ loop[1].st = "wait" /\ b' = Answered(b, loop[1].sys, Now)
          /\ loop' = <<[loop[1] EXCEPT !.st = "idle"]>> /\ UNCHANGED <<clk, old, sys>>
Wrong == /\ loop # <<>> /\ loop[1].st = "wait" /\ b' = Answered(b, 0, Now) /\ UNCHANGED <<clk, loop, old, sys>>
Expire(q) == q.st = "wait" /\ clk >= q.at + b.t6
Timeout == /\ loop # <<>> /\ Expire(loop[1]) /\ loop' = <<[loop[1] EXCEPT !.st = "idle"]>> /\ UNCHANGED <<b, clk, old, sys>>
Take == /\ loop # <<>> /\ loop[1].st = "idle" /\ loop[1].tick /\ loop' = <<[loop[1] EXCEPT !.st = "send", !.tick = FALSE]>>
        /\ UNCHANGED <<b, clk, old, sys>>
Lose == /\ b.link /\ b' = Down(b) /\ loop' = <<>> /\ old' = (IF loop # <<>> /\ loop[1].st = "wait" THEN loop ELSE old) /\ UNCHANGED <<clk, sys>>
OldEnds == old # <<>> /\ Expire(old[1]) /\ old' = <<>> /\ UNCHANGED <<b, clk, loop, sys>>
(* time passes when nothing is to be done at once *)
Urgent == (loop # <<>> /\ (loop[1].st = "send" \/ Expire(loop[1]) \/ (loop[1].st = "idle" /\ loop[1].tick))) \/ (old # <<>> /\ Expire(old[1]))
Tick == /\ ~Urgent /\ clk < Last /\ clk' = clk + 1
        /\ loop' = (IF loop # <<>> /\ clk + 1 >= loop[1].next THEN <<[loop[1] EXCEPT !.tick = TRUE, !.next = @ + b.lt]>> ELSE loop)
        /\ UNCHANGED <<b, old, sys>>
Next == Conn \/ Sel \/ Send \/ Answer \/ Wrong \/ Timeout \/ Take \/ Lose \/ OldEnds \/ Tick
Spec == Init /\ [][Next]_vars
StepOK == /\ Send => MayTest(b, Now, 0) /\ Fresh(b, sys')
          /\ (Tick /\ b.link) => ~Overdue(b, Now, 0)
Steps == [][StepOK]_vars
Inv == LinktestInv(b) /\ ~Overdue(b, Now, 0)
View == <<[b EXCEPT !.open = IF @ = <<>> THEN @ ELSE <<[@[1] EXCEPT !.sys = 0]>>], clk, IF loop = <<>> THEN loop ELSE <<[loop[1] EXCEPT !.sys = 0]>>, IF old = <<>> THEN old ELSE <<[old[1] EXCEPT !.sys = 0]>> >>
=============================================================================
