------------------------------ MODULE MCMsgLog ------------------------------
(* The log's design over a small alphabet of configurations and frames: what
   the log says is enough to tell the traffic, and nothing else is in it.     *)
EXTENDS MsgLog
VARIABLES cfg, sent, log
vars == <<cfg, sent, log>>
CONSTANT Depth
F(st, b2, b3, x, text) == <<0, 0, 0, 10 + Len(text), 0, 5, b2, b3, 0, st, 0, 0, 0, x>> \o text
Frames == {F(0, 129, 1, x, <<>>) : x \in 1..2} \cup {F(0, 1, 2, 1, <<165, 1, 9>>)} \cup {F(st, 0, 0, 1, <<>>) : st \in {1, 2, 5, 7}}
Cfgs == [en : BOOLEAN, mode : {"unset", "sml", "bin", "both"}, ctrl : BOOLEAN, excl : {{}, {"select.req"}, {"select.rsp", "linktest.req"}}, w : {0}]
Init == cfg \in Cfgs /\ sent = <<>> /\ log = <<>>
Send(d, b) == sent' = Append(sent, <<cfg, d, b>>) /\ log' = log \o Entries(cfg, d, <<b>>) /\ UNCHANGED cfg
Conf(c) == cfg' = c /\ UNCHANGED <<sent, log>>
Next == Len(sent) < Depth /\ ((\E d \in {"in", "out"}, b \in Frames : Send(d, b)) \/ \E c \in Cfgs : Conf(c))
Spec == Init /\ [][Next]_vars
Kept == SelectSeq(sent, LAMBDA s : Logged(s[1], s[3]))
\* One entry each, in order, and every entry identifies its message.
OneEach == Len(log) = Len(Kept)
Tells == \A i \in 1..Len(log) : LET b == Kept[i][3] IN
           /\ log[i].dir = Kept[i][2]
           /\ log[i].bin \in {<<>>, b} /\ log[i].sml \in {<<>>, b}
           /\ log[i].bin = b \/ log[i].sml = b \/ (log[i].kind = "ctrl" /\ log[i].type = TypeName(b[10]) /\ log[i].sys = Sys(b))
Data == \A i \in 1..Len(sent) : IsData(sent[i][3]) /\ sent[i][1].en => \E j \in 1..Len(log) : log[j].kind = "data" /\ log[j].sys = Sys(sent[i][3])
Silent == (\A i \in 1..Len(sent) : ~sent[i][1].en) => log = <<>>
=============================================================================
