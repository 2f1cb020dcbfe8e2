------------------------------ MODULE GenHsms ------------------------------
(* Random behaviours of Hsms as scenarios: "vdrv hsms" replays the operations
   on a real endpoint. MIX chooses what they exercise.                      *)
EXTENDS Hsms, Json, IOUtils

VARIABLES m, hist, n, clk, toks
vars == <<m, hist, n, clk, toks>>
Mix == IOEnv.MIX
Depth == atoi(IOEnv.DEPTH)

R(x, S) == RandomElement(S)
Chance(x, p) == R(x, 1..100) <= p
Pick(x, s) == s[R(x, 1..Len(s))]
RECURSIVE Repeat(_, _)
Repeat(c, k) == IF k = 0 THEN "" ELSE IF k = 1 THEN c ELSE LET h == Repeat(c, k \div 2) IN IF k % 2 = 0 THEN h \o h ELSE h \o h \o c

(* ---- configuration ---- *)
Pool == <<<<1, 1>>, <<1, 3>>, <<2, 41>>, <<6, 11>>, <<9, 1>>, <<9, 7>>, <<1, 2>>, <<5, 0>>, <<64, 1>>, <<127, 255>>, <<10, 7>>, <<11, 3>>, <<0, 1>>, <<2, 33>>, <<1, 255>>>>
Kinds == IF Mix \in {"c09"} THEN <<"echo", "drop", "nil">> ELSE IF Mix \in {"c06", "c03"} THEN <<"echo", "echo", "opt", "nil", "err", "other">> ELSE <<"echo", "echo", "opt", "nil", "err">>
Timer(x, name) == CASE name = "t3" -> IF Mix \in {"t3", "c11"} THEN 2 ELSE 30
                    [] name = "t6" -> IF Mix = "t6" THEN 1 ELSE 30
                    [] name = "t7" -> IF Mix = "t7" THEN R(x, 1..2) ELSE 60
                    [] name = "t8" -> IF Mix = "t8" THEN R(x, 1..2) ELSE 300
NewOp(x) ==
  LET hp == SelectSeq(Pool, LAMBDA a : Chance(x, IF Mix \in {"c06", "c03"} THEN 60 ELSE 25)) IN
  [op |-> "new", gem |-> IF Mix = "c11" THEN Pick(x, <<"host", "equip">>) ELSE "", role |-> Pick(x, <<"P", "A">>), auto |-> IF Mix = "c09" THEN Chance(x, 75) ELSE TRUE,
   t3 |-> Timer(x, "t3"), t5 |-> 1, t6 |-> Timer(x, "t6"), t7 |-> Timer(x, "t7"), t8 |-> Timer(x, "t8"),
   sess |-> Pick(x, <<0, 1, 1, 300, 32768, 65534, 65535>>), hs |-> [i \in 1..(IF Mix = "c11" THEN 0 ELSE Len(hp)) |-> [s |-> hp[i][1], f |-> hp[i][2], k |-> Pick(x, Kinds)]],
   df |-> IF Mix = "c11" \/ Chance(x, 70) THEN "" ELSE Pick(x, <<"echo", "nil", "opt", "err">>), cb |-> Mix # "c11" /\ Chance(x, 70)]

(* ---- messages ---- *)
Big(x) == IF Chance(x, IF Mix = "c03" THEN 15 ELSE 3) THEN <<NA(Repeat(Pick(x, <<"abc", "x", "0123456789abcdef">>), R(x, {900, 1700, 5107, 7000})))>> ELSE <<NA("small")>>
Body(x) == CASE R(x, 1..10) = 1 -> Big(x)
             [] OTHER -> Pick(x, <<<<>>, <<NL(0)>>, <<NA("abc")>>, <<NL(2), NU("U4", "70000"), NA("x y")>>, <<Nd("I2", 3, <<"-1", "0", "300">>)>>,
                           <<NB("255")>>, <<NL(1), NL(2), Nd("BOOL", 2, <<"1", "0">>), NL(0)>>, <<Nd("F8", 1, <<"3ff8000000000000">>)>>, <<Nd("U8", 1, <<"18446744073709551615">>)>>, <<NA("")>> >>)
SFs(x) == CASE R(x, 1..10) <= 5 -> Pick(x, Pool)
            [] R(x, 1..10) <= 5 -> <<R(x, {1, 2, 5, 6, 7, 9, 10, 11, 12, 14, 17, 18, 20, 21, 22, 30, 63, 64, 127}), R(x, {0, 1, 2, 3, 5, 9, 11, 13, 14, 101, 254, 255})>>
            [] OTHER -> <<R(x, 0..127), R(x, 0..255)>>
Fresh(k) == "p:" \o ToString(n * 40 + k)
OpenToks == DOMAIN m.open
AnyTok(x) == Pick(x, toks)
Sys(x, k) == IF toks # <<>> /\ Chance(x, IF Mix \in {"c04", "t3"} THEN 40 ELSE 10) THEN "c:" \o AnyTok(x) ELSE Fresh(k)
Blank == [ty |-> "", stp |-> 0, sess |-> 0, b2 |-> 0, b3 |-> 0, s |-> 0, f |-> 0, w |-> 0, sys |-> "", body |-> <<>>, kind |-> ""]
Sess(x) == IF Chance(x, 85) THEN m.sess ELSE Pick(x, <<0, 7, 65535>>)
Data(x, sf, sys) == [Blank EXCEPT !.ty = "data", !.s = sf[1], !.f = sf[2], !.sess = Sess(x), !.sys = sys, !.body = Body(x),
                        !.w = IF sf[2] % 2 = 0 \/ sf[1] = 9 THEN 0 ELSE IF Chance(x, 70) THEN 1 ELSE 0]
Primary(x, k) == LET sf == CHOOSE y \in {SFs(x)} : TRUE IN Data(x, sf, Sys(x, k))
SFFor(x, tok) == LET c == m.open[tok] IN
  CASE R(x, 1..10) = 1 -> <<c.s, 0>>
    [] R(x, 1..10) = 1 -> <<9, R(x, {1, 3, 5, 7, 11})>>
    [] R(x, 1..12) = 1 -> <<R(x, 1..20), 2 * R(x, 1..100)>>
    [] OTHER -> <<c.s, (c.f + 1) % 256>>
ReplyTo(x, tok) == LET sf == CHOOSE y \in {SFFor(x, tok)} : TRUE IN Data(x, sf, "c:" \o tok)
Ctl(stp, sess, b3, sys) == [Blank EXCEPT !.ty = "ctl", !.stp = stp, !.sess = sess, !.b3 = b3, !.sys = sys]
BadSess == IF m.sess = 7 THEN 8 ELSE 7
GoodSess(x) == IF m.sess \in {0, 65535} /\ m.st = "NS" /\ Chance(x, 25) THEN 9 ELSE IF Chance(x, 12) THEN 65535 ELSE m.sess
SelectMsg(x, k) == IF m.role = "A" /\ m.sel # "" /\ Chance(x, 70) THEN Ctl(SelectRsp, m.sess, 0, "sel") ELSE Ctl(SelectReq, GoodSess(x), 0, Fresh(k))
Control(x, k) ==
  CASE R(x, 1..8) = 1 -> Ctl(SelectReq, m.sess, 0, Fresh(k))
    [] R(x, 1..7) = 1 -> Ctl(SelectRsp, m.sess, R(x, 0..3), Fresh(k))
    [] R(x, 1..6) <= 2 -> Ctl(DeselectReq, m.sess, 0, Fresh(k))
    [] R(x, 1..4) = 1 -> Ctl(DeselectRsp, m.sess, R(x, 0..1), Fresh(k))
    [] R(x, 1..3) = 1 -> Ctl(LinktestReq, 65535, 0, Fresh(k))
    [] R(x, 1..2) = 1 -> Ctl(LinktestRsp, 65535, 0, Fresh(k))
    [] OTHER -> [Ctl(RejectReq, m.sess, R(x, 1..4), Fresh(k)) EXCEPT !.b2 = R(x, {0, 5, 8})]
Stray(x, k) ==  \* control messages with the system bytes of an open request
  IF toks = <<>> THEN Control(x, k) ELSE
  Ctl(R(x, {SelectRsp, DeselectRsp, LinktestRsp, RejectReq}), m.sess, R(x, 0..2), "c:" \o AnyTok(x))
Bad(x) == [Blank EXCEPT !.ty = "bad", !.sess = m.sess, !.sys = Fresh(39),
             !.kind = Pick(x, <<"len0", "short", "len9", "ptype", "stype", "format", "over", "trail", "lenbytes">>)]
Closing(x) ==
  CASE R(x, 1..4) = 1 /\ m.st = "SEL" -> Ctl(SeparateReq, m.sess, 0, Fresh(38))
    [] R(x, 1..3) = 1 /\ m.role = "A" /\ m.sel # "" -> Ctl(SelectRsp, m.sess, R(x, 1..3), "sel")
    [] R(x, 1..2) = 1 /\ m.sess \notin {0, 65535} -> Ctl(SelectReq, BadSess, 0, Fresh(38))
    [] OTHER -> Bad(x)

(* ---- outcomes ---- *)
T == At(clk, clk)
Score(o) == (IF ~o.m.link THEN 2 ELSE 0) + (IF o.done # <<>> THEN 1 ELSE 0)
Pref(os) == CHOOSE o \in os : \A p \in os : Score(o) >= Score(p)
RECURSIVE Run(_, _)
Run(o, gs) == IF gs = <<>> THEN [o |-> o, k |-> 0]
              ELSE LET p == Join(o, Pref(Rx(o.m, Head(gs), T))) IN
                   IF ~p.m.link THEN [o |-> p, k |-> 1] ELSE LET r == Run(p, Tail(gs)) IN [o |-> r.o, k |-> r.k + 1]
Cut(x) == Pick(x, IF Mix = "c03" THEN <<"bytes", "rand", "rand", "rand", "one", "frame">> ELSE <<"one", "one", "frame", "rand">>)

(* Applies an operation with its outcome *)
Do(op, o, dt) ==
  \E e \in {op} : \E q \in {o} :
  /\ m' = q.m /\ clk' = clk + dt
  /\ hist' = Append(hist, e @@ [nd |-> Len(q.done), ncl |-> m.link /\ ~q.m.link])
InAt(gs, at) == \E g \in {gs} : \E r \in {Run(O(m), g)} : Do([op |-> "in", msgs |-> SubSeq(g, 1, r.k), cut |-> Cut(hist), at |-> at], r.o, 20) /\ UNCHANGED toks
In(gs) == InAt(gs, 0)
Keep == UNCHANGED toks

Once == m.role = "A" /\ ~m.auto
DoEnable == Do([op |-> "enable"], O(Enable(m)), 10) /\ Keep
DoDisable == Do([op |-> "disable", deaf |-> m.t6 = 1 /\ Chance(hist, 50)], O(Disable(m, T)), 300) /\ Keep
(* en: enables, too. Without auto-reconnect there is one attempt to connect, and the peer has to listen before *)
DoConnect == Do([op |-> "connect", en |-> ~m.on], O(Connected(Enable(m), T, IF m.role = "A" THEN "sel" ELSE "")), 20) /\ Keep
DoSelect == In(<<SelectMsg(hist, 1)>>)
DoNoconn == Do([op |-> "noconn", ms |-> IF m.role = "P" THEN 200 ELSE 2200], O(m), 2200) /\ Keep
CallOf(x, i) == LET sf == CHOOSE y \in {Pick(x, <<<<1, 1>>, <<1, 13>>, <<2, 41>>, <<6, 11>>, <<1, 3>>, <<64, 1>>, <<127, 255>>, <<3, 17>>>>)} : TRUE tok == "t" \o ToString(n) \o "_" \o ToString(i) IN
  [tok |-> tok, s |-> sf[1], f |-> sf[2], w |-> Pick(x, <<1, 1, 1, 2>>), body |-> <<NL(2), NA(tok)>> \o (LET y == Body(x) IN IF y = <<>> THEN <<NL(0)>> ELSE y)]
DoCall == \E k \in {IF Mix = "c04" THEN R(hist, 1..6) ELSE R(hist, 1..2)} :
          \E cs \in {[i \in 1..k |-> CallOf(hist, i)]} :
            /\ Do([op |-> "call", cs |-> cs], Call(m, cs, [x \in {cs[i].tok : i \in 1..k} |-> "c:" \o x], T), 20)
            /\ toks' = IF Refusal(m) = "" THEN toks \o [i \in 1..k |-> cs[i].tok] ELSE toks
DoSend == \E sf0 \in {SFs(hist)} : \E sf \in {IF sf0 = <<9, 9>> THEN <<9, 7>> ELSE sf0} : \E c \in {[tok |-> "", s |-> sf[1], f |-> sf[2], w |-> IF sf[2] % 2 = 0 THEN R(hist, {0, 2}) ELSE R(hist, 0..2), body |-> Body(hist)]} :
          IF Chance(hist, 30) THEN Do([op |-> "resp", c |-> c, sys |-> Fresh(37)], SendMsg(m, c, Fresh(37)), 10) /\ Keep
          ELSE Do([op |-> "send", c |-> c], SendMsg(m, c, ""), 10) /\ Keep
DoDrop == Do([op |-> "drop", how |-> Pick(hist, <<"fin", "rst", "half">>)], Close(m, T), 20) /\ Keep
RECURSIVE Shuffle(_, _)
Shuffle(x, S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in {R(x, S)} : TRUE IN <<a>> \o Shuffle(x, S \ {a})
(* Replies to some of the open requests in some order, with primaries between *)
DoReplies == \E S \in {{t \in OpenToks : Chance(hist, 70)}} : \E s \in {Shuffle(hist, S)} :
             \E gs \in {[i \in 1..Len(s) |-> ReplyTo(hist, s[i])]} :
             IF gs = <<>> THEN In(<<Primary(hist, 1)>>)
             ELSE IF Chance(hist, 50) THEN In(gs)
             ELSE \E k \in {R(hist, 1..Len(gs))} : \E p \in {Primary(hist, 30)} : In(SubSeq(gs, 1, k - 1) \o <<p>> \o SubSeq(gs, k, Len(gs)))
(* The same around the moment the first of them runs out: at - 100 ms after it *)
DoRace == \E s \in {Shuffle(hist, OpenToks)} : \E gs \in {[i \in 1..Len(s) |-> ReplyTo(hist, s[i])]} : IF gs = <<>> THEN DoCall ELSE InAt(gs, 100 + R(hist, {-30, -2, -1, 0, 0, 1, 2}))
DoBatch == \E k \in {IF Mix = "c03" THEN R(hist, 1..12) ELSE R(hist, 1..5)} :
           \E gs \in {[i \in 1..k |-> IF Chance(i, IF Mix \in {"c07", "t7"} THEN 50 ELSE 12) THEN Control(hist, i) ELSE Primary(hist, i)]} : In(gs)
DoStray == In(<<Stray(hist, 1)>>)
DoClosing == \E c \in {Closing(hist)} : \E p \in {Primary(hist, 1)} : In(IF Chance(hist, 50) THEN <<c>> ELSE <<p, c>>)
DoPart == \E g \in {IF Chance(hist, 30) THEN SelectMsg(hist, 1) ELSE Primary(hist, 1)} :
          Do([op |-> "part", g |-> g, k |-> Pick(hist, <<1, 3, 4, 5, 13, 14, 15, 20>>)], O([m EXCEPT !.part = <<T, g>>]), 30) /\ Keep
DoRest == \E r \in {Run(O([m EXCEPT !.part = <<>>]), <<m.part[2]>>)} : Do([op |-> "rest"], r.o, 10) /\ Keep
(* Waiting, with what the timers do meanwhile *)
DoIdle(ms) == \E d \in {ms} :
  LET end == clk + d
      t7 == m.link /\ m.st = "NS" /\ end >= m.ns.hi + m.t7 * 1000
      t8 == m.link /\ (m.part # <<>> \/ m.t8 < 10) /\ end >= m.last.lo + m.t8 * 1000
      out == {x \in OpenToks : end >= m.open[x].hi + m.t3 * 1000}
      m1 == [m EXCEPT !.open = Del(m.open, out)]
  IN Do([op |-> "idle", ms |-> d], IF t7 \/ t8 THEN Close(m1, At(end, end)) ELSE O(m1), d) /\ Keep
DoT3 == Do([op |-> "t3"], [O([m EXCEPT !.open = EmptyMap]) EXCEPT !.done = [i \in 1..Cardinality(OpenToks) |-> 0]], 2100) /\ Keep
DoFlood == Do([op |-> "flood", n |-> 20, k |-> R(hist, {1, 3, 8})], O(m), 500) /\ Keep

(* Hostile peers of GEM endpoints *)
Hostile(x, k) == CASE Chance(x, 80) -> [Data(x, IF Chance(x, 80) THEN <<0, 0>> ELSE SFs(x), Fresh(k)) EXCEPT !.kind = "fuzz"]
                   [] OTHER -> Control(x, k)
DoHostile == \E k \in {R(hist, 1..12)} : \E gs \in {[i \in 1..k |-> Hostile(i, i)]} : In(gs)
DoMaybe == \E a \in {Hostile(hist, 1)} :
           \E g \in {[Data(hist, <<R(hist, 1..20), R(hist, 1..40)>>, Fresh(2)) EXCEPT !.ty = "maybe", !.kind = Pick(hist, <<"deep", "raw", "raw", "noise", "weven", "claims">>)]} :
           /\ m' = Close(m, T).m /\ clk' = clk + 20 /\ Keep
           /\ hist' = hist \o <<[op |-> "in", msgs |-> <<a, g>>, cut |-> "one", at |-> 0, nd |-> 0, ncl |-> FALSE], [op |-> "drop", how |-> Pick(hist, <<"fin", "rst">>), nd |-> 0, ncl |-> TRUE]>>
DoHuge == \E g \in {[Data(hist, <<1, 1>>, Fresh(1)) EXCEPT !.ty = "maybe", !.kind = "huge"]} :
          Do([op |-> "part", g |-> g, k |-> 1000], O([m EXCEPT !.part = <<T, g>>]), 30) /\ Keep
DoUse == \E k \in {R(hist, 1..4)} : \E ks \in {[i \in 1..k |-> R(i, 0..28)]} : Do([op |-> "use", ks |-> ks], O(m), 500) /\ Keep
DoProbe == Do([op |-> "probe", sess |-> m.sess], O(m), 20) /\ Keep

(* ---- behaviours ---- *)
Pct == R(hist, 1..100)
Off == \E p \in {Pct} : IF p <= 50 THEN (IF Once THEN DoConnect ELSE DoEnable) ELSE IF p <= 70 THEN DoNoconn ELSE IF p <= 85 THEN DoCall ELSE DoSend
Down == \E p \in {Pct} :
        IF m.role = "A" /\ ~m.auto /\ m.gone # <<>> THEN (IF p <= 50 THEN DoNoconn ELSE DoDisable)
        ELSE IF p <= 80 \/ Mix \in {"t7", "t8"} THEN DoConnect ELSE IF p <= 85 THEN DoCall ELSE IF p <= 90 THEN DoSend ELSE IF p <= 95 /\ Mix \in {"c07", "c09"} THEN DoDisable ELSE DoConnect
Unselected == \E p \in {Pct} :
  CASE Mix \in {"c04", "c06", "c03", "t3"} -> IF p <= 90 THEN DoSelect ELSE DoBatch
    [] Mix = "t7" -> (CASE p <= 20 -> DoIdle(m.t7 * 1000 - 500) [] p <= 35 -> DoIdle(Max(1, m.ns.lo + m.t7 * 1000 - clk - R(hist, {30, 60, 120}))) [] p <= 50 -> DoIdle(m.t7 * 1000 + 1600)
                        [] p <= 60 -> DoBatch [] OTHER -> DoSelect)
    [] Mix = "t8" -> (IF p <= 50 THEN DoSelect ELSE IF p <= 85 THEN DoPart ELSE DoIdle(300))
    [] Mix = "t6" -> (IF p <= 30 THEN DoSelect ELSE IF p <= 70 THEN DoIdle(R(hist, {100, 2500})) ELSE IF p <= 80 THEN DoDisable ELSE DoBatch)
    [] Mix = "c11" -> (IF p <= 60 THEN DoSelect ELSE IF p <= 75 THEN DoHostile ELSE IF p <= 82 THEN DoMaybe ELSE IF p <= 86 THEN DoHuge ELSE IF p <= 92 THEN DoClosing ELSE IF p <= 96 THEN DoPart ELSE DoDrop)
    [] Mix = "c09" -> (IF p <= 55 THEN DoSelect ELSE IF p <= 70 THEN DoDrop ELSE IF p <= 85 THEN DoClosing ELSE IF p <= 90 THEN DoPart ELSE IF p <= 95 THEN DoDisable ELSE DoBatch)
    [] OTHER -> (IF p <= 45 THEN DoSelect ELSE IF p <= 65 THEN DoBatch ELSE IF p <= 72 THEN DoCall ELSE IF p <= 80 THEN DoSend ELSE IF p <= 88 THEN DoClosing ELSE IF p <= 94 THEN DoStray ELSE DoDrop)
Selected == \E p \in {Pct} :
  CASE Mix = "c03" -> IF p <= 85 THEN DoBatch ELSE IF p <= 90 THEN DoSend ELSE DoFlood
    [] Mix = "c04" -> IF p <= 35 THEN DoCall ELSE IF p <= 75 THEN DoReplies ELSE IF p <= 83 THEN DoBatch ELSE IF p <= 87 THEN DoSend ELSE IF p <= 92 THEN DoStray ELSE IF p <= 95 THEN DoFlood ELSE DoDrop
    [] Mix = "c06" -> IF p <= 85 THEN DoBatch ELSE IF p <= 90 THEN DoCall ELSE IF p <= 95 THEN DoReplies ELSE DoSend
    [] Mix = "t3" -> IF p <= 35 THEN DoCall ELSE IF p <= 45 THEN DoReplies ELSE IF p <= 70 THEN DoRace ELSE IF p <= 85 THEN DoT3 ELSE IF p <= 92 THEN DoBatch ELSE IF p <= 97 THEN DoIdle(R(hist, {500, 1900, 2600})) ELSE DoDrop
    [] Mix = "t7" -> IF p <= 45 THEN DoIdle(m.t7 * 1000 + 1300) ELSE IF p <= 85 THEN In(<<Ctl(DeselectReq, m.sess, 0, Fresh(1))>>) ELSE IF p <= 90 THEN DoBatch ELSE DoDrop
    [] Mix = "t8" -> IF p <= 30 THEN DoBatch ELSE IF p <= 90 THEN DoPart ELSE DoIdle(300)
    [] Mix = "t6" -> IF p <= 50 THEN DoDisable ELSE IF p <= 80 THEN DoDrop ELSE DoBatch
    [] Mix = "c11" -> IF p <= 50 THEN DoHostile ELSE IF p <= 62 THEN DoProbe ELSE IF p <= 78 THEN DoUse ELSE IF p <= 84 THEN DoMaybe ELSE IF p <= 87 THEN DoHuge ELSE IF p <= 93 THEN DoClosing
                      ELSE IF p <= 94 THEN DoPart ELSE IF p <= 96 THEN DoIdle(700) ELSE IF p <= 98 THEN DoDrop ELSE DoDisable
    [] Mix = "c09" -> IF p <= 15 THEN DoBatch ELSE IF p <= 30 THEN DoCall ELSE IF p <= 40 THEN DoReplies ELSE IF p <= 60 THEN DoDrop ELSE IF p <= 78 THEN DoClosing ELSE IF p <= 84 THEN DoPart ELSE DoDisable
    [] OTHER -> (IF p <= 40 THEN DoBatch ELSE IF p <= 50 THEN DoCall ELSE IF p <= 58 THEN DoReplies ELSE IF p <= 65 THEN DoSend ELSE IF p <= 75 THEN In(<<Ctl(DeselectReq, m.sess, 0, Fresh(1))>>)
                 ELSE IF p <= 85 THEN DoClosing ELSE IF p <= 92 THEN DoStray ELSE IF p <= 96 THEN DoDrop ELSE DoDisable)
Partial == \E p \in {Pct} : IF Mix = "t8" THEN (IF p <= 35 THEN DoRest ELSE IF p <= 50 THEN DoDrop ELSE DoIdle(IF Chance(hist, 20) THEN 400 ELSE m.t8 * 1000 + 1600))
                           ELSE IF m.part[2].kind = "huge" THEN DoDrop
                           ELSE IF p <= 50 THEN DoRest ELSE IF p <= 90 \/ m.role = "A" THEN DoDrop ELSE DoDisable
Init == m = <<>> /\ hist = <<>> /\ n = 0 /\ clk = 0 /\ toks = <<>>
First == \E e \in {NewOp(hist)} : m' = NewH(e) /\ hist' = <<e>> /\ clk' = 0 /\ Keep
Next == /\ n' = n + 1
        /\ n < Depth
        /\ IF n = 0 THEN First ELSE IF n = 1 /\ ~Once THEN DoEnable ELSE IF ~m.on THEN Off ELSE IF ~m.link THEN Down
           ELSE IF m.part # <<>> THEN Partial ELSE IF m.st = "NS" THEN Unselected ELSE Selected
        /\ IF n + 1 = Depth THEN PrintT("SCN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Inv == n > 0 => HsmsInv(m)
=============================================================================
