------------------------------- MODULE GenGem -------------------------------
(* Random behaviours of Gem as scenarios for the driver: "vdrv gem" replays
   the operations on the real equipment. MIX chooses what they exercise.    *)
EXTENDS Gem, Json, IOUtils

VARIABLES m, hist, held, n
vars == <<m, hist, held, n>>
Mix == IOEnv.MIX
Depth == atoi(IOEnv.DEPTH)

R(x, S) == RandomElement(S)                \* x: something not constant, so that every use draws anew
Chance(x, p) == R(x, 1..100) <= p
Pick(x, s) == s[R(x, 1..Len(s))]
Fl(s) == Nd("F8", 1, <<s>>)

RECURSIVE Repeat(_, _)
Repeat(c, k) == IF k = 0 THEN "" ELSE IF k = 1 THEN c ELSE LET h == Repeat(c, k \div 2) IN IF k % 2 = 0 THEN h \o h ELSE h \o h \o c
Pad(c, t, k) == Repeat(c, k - Len(t)) \o t   \* t filled up to k characters
Few(x, max) == IF Chance(x, 6) THEN R(x, 4..25) ELSE IF Chance(x, 1) THEN R(x, {63, 64, 127, 128, 255, 256, 300}) ELSE R(x, 0..max)

(* ---- population ---- *)
V(i) == CASE i = 1 -> <<NU("U4", "7")>> [] i = 2 -> <<NA("abc")>> [] i = 3 -> <<NL(2), NA("x y"), Nd("I2", 1, <<"-3">>)>>
          [] i = 4 -> <<Nd("F8", 1, <<"3ff8000000000000">>)>> [] i = 5 -> <<Nd("BOOL", 2, <<"1", "0">>)>>
          [] i = 6 -> <<Nd("U1", 0, <<>>)>> [] i = 7 -> <<NB("255")>> [] i = 8 -> <<NA("")>> [] i = 9 -> <<>>
          [] i = 10 -> <<Nd("U8", 1, <<"18446744073709551615">>)>> [] i = 11 -> <<NL(0)>> [] i = 12 -> <<NU("U1", "7")>>
          [] i = 13 -> <<Nd("I8", 2, <<"-9223372036854775808", "5">>)>> [] i = 14 -> <<NL(1), NL(1), NL(0)>>
          [] i = 15 -> <<NA(Repeat("long ", 60))>> [] i = 16 -> <<Nd("U2", 3, <<"1", "65535", "256">>)>> [] i = 17 -> <<NL(2), NL(2), NB("1"), NL(0), NU("U4", "4294967295")>>
          [] i = 18 -> <<Nd("I4", 1, <<"-2147483648">>)>> [] i = 19 -> <<Nd("F4", 2, <<"3ff8000000000000", "c000000000000000">>)>> [] i = 20 -> <<Nd("B", 3, <<"0", "128", "7">>)>>
          [] i = 21 -> <<NL(1), NA("in a list")>> [] i = 22 -> <<Nd("BOOL", 0, <<>>)>>
Vs == 22
SvKeys == <<"N:1", "S:sv", "N:2", "N:70000", "S:", "N:4294967296", "S:1", "N:257", "N:65538", "N:18446744073709551615", "S:SV">>
DvKeys == <<"N:10", "S:dv", "N:1", "N:300", "N:266", "N:4294967306">>
EcKeys == <<"N:100", "S:ec", "N:101", "N:1", "N:70001", "S: x ", "N:356", "N:65637", "N:4294967396", "S:100">>
CeKeys == <<"N:1", "N:2", "S:ce", "N:300", "N:4294967297", "N:258", "S:1">>
Rpts == <<"N:1", "N:2", "S:r", "N:400", "S:1", "N:257", "N:4294967298">>
Ppids == <<"S:prog", "S:", "N:5", "S:5", "S:a b", "S:PROG", "N:261">>
Unknown == <<"N:99", "S:nope", "N:0">>
SvOf(x, k) == [k |-> k, name |-> Pick(x, <<"temp", "", "p x", Repeat("n", 45)>>), unit |-> Pick(x, <<"C", "", "mm", " m ">>), val |-> V(R(x, 1..Vs))]
EcOf(x, k) == [k |-> k, name |-> Pick(x, <<"ecn", "">>), unit |-> Pick(x, <<"s", "">>), min |-> V(R(x, 1..9)), max |-> V(R(x, 1..9)),
               def |-> V(R(x, 1..8)), val |-> <<>>, rule |-> Pick(x, <<"any", "any", "none", "text", "num", "ext", "upd", "upd", "exttext">>)]
AlarmPool == <<[id |-> "0", rank |-> 0], [id |-> "1", rank |-> 1], [id |-> "7", rank |-> 2], [id |-> "300", rank |-> 3],
               [id |-> "65535", rank |-> 4], [id |-> "65536", rank |-> 5], [id |-> "2000000000", rank |-> 6]>>
AlarmOf(x, i) == [id |-> AlarmPool[i].id, rank |-> AlarmPool[i].rank, text |-> Pick(x, <<"too hot", "", "x", Repeat("a", 40), Repeat("b", 41), Repeat("c", 121)>>), set |-> Chance(x, 20), en |-> TRUE]
SubList(x, s, p) == SelectSeq(s, LAMBDA a : Chance(x, p))
NewOp(x) ==
  LET sk == SubList(x, SvKeys, 75) dk == SubList(x, DvKeys, 75) ek == SubList(x, EcKeys, 75) ck == SubList(x, CeKeys, 80)
      ai == SubList(x, <<1, 2, 3, 4, 5, 6, 7>>, 65)
  IN [op |-> "new", init |-> IF Mix = "stale" THEN "EO" ELSE Pick(x, <<"EO", "EO", "HO", "AO", "ON">>), t3 |-> IF Mix = "stale" THEN 4 ELSE IF Mix = "c15" /\ Chance(x, 15) THEN 1 ELSE 30, mode |-> Pick(x, <<"LOCAL", "REMOTE">>), mdln |-> Pick(x, <<"m1", " ", Repeat("M", 21)>>), rev |-> Pick(x, <<"r 2", "-", "7">>),
      sv |-> [i \in 1..Len(sk) |-> SvOf(x, sk[i])], dv |-> [i \in 1..Len(dk) |-> SvOf(x, dk[i])],
      ec |-> [i \in 1..Len(ek) |-> EcOf(x, ek[i])], ce |-> ck, al |-> [i \in 1..Len(ai) |-> AlarmOf(x, ai[i])],
      pp |-> <<>>]
T3 == hist[1].t3
S1F1Hows(x) == IF Mix # "c15" THEN "ok" ELSE IF T3 = 1 THEN Pick(x, <<"ok", "timeout">>) ELSE Pick(x, <<"ok", "ok", "fail", "hold">>)

(* ---- items ---- *)
Widths(v) == IF Len(v) <= 2 THEN <<"U1", "U2", "U4", "U8", "I1", "I2", "I4", "I8">>
             ELSE IF Len(v) <= 4 THEN <<"U2", "U4", "U8", "I2", "I4", "I8">>
             ELSE IF Len(v) <= 9 THEN <<"U4", "U8", "I4", "I8">> ELSE IF Len(v) < 19 THEN <<"U8", "I8">> ELSE <<"U8">>
IdNode(x, k) ==
  LET v == SubSeq(k, 3, Len(k)) IN
  IF SubSeq(k, 1, 1) = "S" THEN NA(v)
  ELSE LET w == Pick(x, Widths(v)) IN IF Chance(x, 5) THEN Nd(w, 2, <<v, "9">>) ELSE Nd(w, 1, <<v>>)
BadId(x) == Pick(x, <<Nd("U4", 0, <<>>), Nd("I2", 1, <<"-5">>), NB("1"), NL(0), Nd("F4", 1, <<"3ff8000000000000">>), Nd("BOOL", 1, <<"1">>),
                      Nd("I1", 0, <<>>), Nd("B", 0, <<>>)>>)
AnyKey(x, pool) == IF Chance(x, 8) THEN Pick(x, Unknown) ELSE Pick(x, pool)
AnyId(x, pool) == IF Chance(x, 3) THEN BadId(x) ELSE IdNode(x, AnyKey(x, pool))
IdList(x, pool, max) == LET c == Few(x, max) IN <<NL(c)>> \o [i \in 1..c |-> AnyId(x, pool)]
VarVal(x) == IF Chance(x, 50) THEN <<NU("U4", ToString(1000 + Len(hist)))>> ELSE V(R(x, 1..Vs))
Body1(x) == Pick(x, <<<<>>, <<NL(0)>>, <<NA("x")>>, <<NU("U1", "1")>>, <<NL(1), NB("0")>>, <<NL(2), NU("U1", "1"), NA("z")>>, <<NL(1), NL(1), NL(0)>>,
                      <<NB("0")>>, <<NL(2), NB("128"), NA("1")>>, <<NL(2), NA(""), NU("U4", "3")>>, <<NL(2), NB("1"), NL(1), NL(0)>> >>)

EntryList(x, pool, ids, max, maxids) ==
  LET c == R(x, 0..max)
      one(i) == IF Chance(x, 2) THEN Pick(x, <<<<NL(1), NA("q")>>, <<NA("q")>>, <<NL(2), NA("q"), NA("r")>>, <<NL(0)>>>>)
                ELSE <<NL(2), IF Chance(x, 3) THEN BadId(x) ELSE IdNode(x, AnyKey(x, pool))>>
                     \o (IF Chance(x, 20) THEN <<NL(0)>> ELSE IdList(x, ids, maxids))
      es == Concat([i \in 1..c |-> one(i)])
  IN IF Chance(x, 25) THEN <<NL(c)>> \o es ELSE <<NL(2), Pick(x, <<NU("U1", "0"), NU("U4", "77"), NA("d"), Nd("U4", 0, <<>>)>>), NL(c)>> \o es

(* several good entries at once *)
GoodList(x, ks, ids(_)) ==
  LET one(k) == LET r == SubList(x, ids(k), 50) IN <<NL(2), IdNode(x, k), NL(Len(r))>> \o [i \in 1..Len(r) |-> IdNode(x, r[i])]
      es == Concat([i \in 1..Len(ks) |-> one(ks[i])])
  IN <<NL(2), NU("U1", "0"), NL(Len(ks))>> \o es
FreeRpts(c) == SelectSeq(Rpts, LAMBDA r : r \in DOMAIN m.rp /\ (c \in DOMAIN m.lk => \A i \in 1..Len(m.lk[c].rs) : m.lk[c].rs[i] # r))
GoodRpts(x) == GoodList(x, SubList(x, SelectSeq(Rpts, LAMBDA r : r \notin DOMAIN m.rp), 60), LAMBDA k : [i \in 1..Len(m.sv) |-> m.sv[i].k] \o [i \in 1..Len(m.dv) |-> m.dv[i].k])
GoodLinks(x) == GoodList(x, SubList(x, SelectSeq(CeKeys, LAMBDA c : c \in m.ce), 60), FreeRpts)

Req(x, s, f, body) == [op |-> "req", s |-> s, f |-> f, w |-> IF Chance(x, 92) THEN 1 ELSE 0, nodes |-> body, s1f1 |-> "ok"]
Mal(x, body) == IF Chance(x, 3) THEN Body1(x) ELSE body
(* linked events and defined reports are preferred so that reports get through *)
Keys(S, else) == IF S = {} THEN else ELSE CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j]
CeSome(x) == IF m.ce = {} THEN "N:1" ELSE IF DOMAIN m.lk # {} /\ Chance(x, 70) THEN R(x, DOMAIN m.lk) ELSE IF Chance(x, 90) THEN R(x, m.ce) ELSE Pick(x, Unknown)
VidPool == [i \in 1..Len(m.sv) |-> m.sv[i].k] \o [i \in 1..Len(m.dv) |-> m.dv[i].k] \o <<"N:99">>
NewRpts(x) == LET s == SelectSeq(Rpts, LAMBDA r : r \notin DOMAIN m.rp) IN IF s = <<>> \/ Chance(x, 25) THEN Rpts ELSE s
OldRpts(x) == LET s == SelectSeq(Rpts, LAMBDA r : r \in DOMAIN m.rp) IN IF s = <<>> \/ Chance(x, 5) THEN Rpts ELSE s
Events(x) == LET s == SelectSeq(CeKeys, LAMBDA c : c \in m.ce) IN IF s = <<>> \/ Chance(x, 5) THEN CeKeys ELSE s

Times(x) == Pick(x, <<"2024022923595900", "20230229000000", "1999123123595999", "20240101000000xx", "2024010100000", "", "2024-01-01 00:00",
                      "20241301000000", "20240001000000", "20240100000000", "20240431000000", "20240430240000", "20240430236000",
                      "20240430235960", "2024043023595900", "2100022900000000", "2000022912304500", " 20240101000000", "99991231235959",
                      "20240101 00000", "20240630120000.5", "+2024010100000", "202401010000000000000000" >>)
Handlers(x) ==
  [cmd |-> [k |-> IF Chance(x, 85) THEN "h" ELSE "none", hcack |-> R(x, {0, 0, 1, 2, 3, 4, 5, 6, 7, 64, 255}),
            acks |-> Pick(x, <<<<>>, <<[id |-> "S:p", ack |-> 1]>>, <<[id |-> "N:3", ack |-> 3], [id |-> "S:q", ack |-> 63]>>,
                              <<[id |-> "S:p", ack |-> 0], [id |-> "S:", ack |-> 200]>> >>), err |-> Chance(x, 20)],
   up |-> [k |-> IF Chance(x, 50) THEN "h" ELSE "none", ack |-> R(x, {0, 1, 4, 5, 255})],
   ppr |-> LET b == Pick(x, <<"BODY", "", "a\\x0ab", Repeat("q", 300)>>) IN
           [k |-> IF Chance(x, 25) THEN "h" ELSE "none", ack |-> R(x, {0, 1, 4, 255}), body |-> b, n |-> IF b = "a\\x0ab" THEN 3 ELSE Len(b)],
   clk |-> [k |-> IF Chance(x, 85) THEN "h" ELSE "none", code |-> R(x, {0, 0, 1, 2, 63}), err |-> Chance(x, 15)]]

CmdBody(x) ==
  LET c == Few(x, 3)
      par(i) == IF Chance(x, 4) THEN Pick(x, <<<<NL(0)>>, <<NA("q")>>, <<NL(1), NA("only")>>, <<NL(2), NL(0), NA("v")>>>>)
                ELSE LET v == V(R(x, 1..Vs)) IN
                     IF v = <<>> THEN <<NL(1), AnyId(x, <<"S:p", "N:3", "S:", "S:P", "N:259", "S:3", "S:LONGNAME_of_a_parameter">>)>> ELSE <<NL(2), AnyId(x, <<"S:p", "N:3", "S:", "S:P", "N:259", "S:3", "S:LONGNAME_of_a_parameter">>)>> \o v
  IN Mal(x, <<NL(2), AnyId(x, <<"S:START", "S:", "N:7", "S:stop now", "S:start", "S: START", "N:263">>), NL(c)>> \o Concat([i \in 1..c |-> par(i)]))

Prog(x) == LET t == ToString(Len(hist)) IN
           IF Chance(x, 50) THEN Pick(x, <<"p" \o t, "", "x y<z>", " p ", "\\x0a\\x0d\\x00">>) ELSE Pad(Pick(x, <<"a", "b">>), t, Pick(x, <<40, 80, 100, 200, 255, 256, 300, 1000, 5000>>))
(* ---- operations by kind ---- *)
Api(fn) == [op |-> "api", fn |-> fn, s1f1 |-> "ok"]
Op(x, kind) ==
  CASE kind = "S1F1" -> Req(x, 1, 1, Pick(x, <<<<>>, <<NL(0)>>, <<NA("q")>>>>))
    [] kind = "S1F3" -> Req(x, 1, 3, Mal(x, IdList(x, SvKeys, 4)))
    [] kind = "S1F11" -> Req(x, 1, 11, Mal(x, IdList(x, SvKeys, 4)))
    [] kind = "S2F13" -> Req(x, 2, 13, Mal(x, IdList(x, EcKeys, 4)))
    [] kind = "S2F29" -> Req(x, 2, 29, Mal(x, IdList(x, EcKeys, 4)))
    [] kind = "S2F15" -> Req(x, 2, 15, Mal(x, LET c == Few(x, 3)
                                                 pool == [i \in 1..Len(m.ec) |-> m.ec[i].k] \o <<"N:99">>
                                                 one(i) == IF Chance(x, 3) THEN Pick(x, <<<<NL(1), NA("q")>>, <<NA("q")>>, <<NL(0)>>>>)
                                                           ELSE <<NL(2), IF Chance(x, 3) THEN BadId(x) ELSE IdNode(x, Pick(x, pool))>>
                                                                \o Pick(x, <<<<NU("U2", ToString(500 + Len(hist)))>>, <<NA("t" \o ToString(Len(hist)))>>, <<NL(1), NB("3")>>>>)
                                             IN <<NL(c)>> \o Concat([i \in 1..c |-> one(i)])))
    [] kind = "S2F33" -> IF Chance(x, 3) THEN Req(x, 2, 33, <<NL(0)>>)
                         ELSE IF Chance(x, 20) THEN Req(x, 2, 33, GoodRpts(x)) ELSE Req(x, 2, 33, Mal(x, EntryList(x, NewRpts(x), VidPool, IF Chance(x, 20) THEN 5 ELSE 2, 4)))
    [] kind = "S2F35" -> IF Chance(x, 25) THEN Req(x, 2, 35, GoodLinks(x)) ELSE Req(x, 2, 35, Mal(x, EntryList(x, Events(x), OldRpts(x), IF Chance(x, 25) THEN 5 ELSE 2, 3)))
    [] kind = "S2F37" -> Req(x, 2, 37, Mal(x, <<NL(2), Pick(x, <<NB("0"), NB("1"), NB("128"), Nd("BOOL", 1, <<"0">>), Nd("BOOL", 1, <<"1">>)>>)>>
                                            \o IdList(x, Keys(DOMAIN m.lk, CeKeys), 2)))
    [] kind = "S6F15" -> Req(x, 6, 15, LET id == IF Chance(x, 6) THEN BadId(x) ELSE IdNode(x, CeSome(x)) IN IF Chance(x, 25) THEN <<NL(1), id>> ELSE <<id>>)
    [] kind = "S2F17" -> Req(x, 2, 17, <<>>)
    [] kind = "S2F31" -> Req(x, 2, 31, IF Chance(x, 12) THEN Body1(x) ELSE <<NA(Times(x))>>)
    [] kind = "S2F41" -> Req(x, 2, 41, CmdBody(x))
    [] kind = "S5F3" -> Req(x, 5, 3, Mal(x, LET c == Few(x, 3) IN
                          <<NL(2), Pick(x, <<NB("128"), NB("0"), NB("128"), NB("0"), NB("1"), NB("127"), Nd("B", 0, <<>>)>>), NL(c)>>
                          \o [i \in 1..c |-> IF Chance(x, 5) THEN Pick(x, <<NA("1"), Nd("U4", 0, <<>>), NL(0), NB("1"), NU("U8", "99")>>)
                                             ELSE IF m.al = <<>> THEN NU("U2", "1")
                                             ELSE LET v == m.al[R(x, 1..Len(m.al))].id IN Nd(Pick(x, Widths(v)), 1, <<v>>)]))
    [] kind = "S5F5" -> Req(x, 5, 5, Pick(x, <<<<>>, <<NL(0)>>>>))
    [] kind = "S5F7" -> Req(x, 5, 7, Pick(x, <<<<>>, <<NL(0)>>>>))
    [] kind = "S7F3" -> Req(x, 7, 3, Mal(x, <<NL(2), AnyId(x, Ppids), IF Chance(x, 4) THEN NB("7") ELSE 
                              LET b == Prog(x) IN [NA(b) EXCEPT !.n = IF @ = 12 THEN 3 ELSE @]>>))
    [] kind = "S7F5" -> Req(x, 7, 5, IF Chance(x, 5) THEN Body1(x) ELSE IF Chance(x, 30) THEN <<NL(1), AnyId(x, Ppids)>> ELSE <<AnyId(x, Ppids)>>)
    [] kind = "S1F15" -> Req(x, 1, 15, <<>>)
    [] kind = "S1F17" -> Req(x, 1, 17, <<>>)
    [] kind = "S1F13" -> [Req(x, 1, 13, Pick(x, <<<<NL(0)>>, <<NL(2), NA("h"), NA("1")>>>>)) EXCEPT !.s1f1 = "ok"]
    [] kind = "setSV" -> LET k == IF m.sv = <<>> THEN "N:1" ELSE m.sv[R(x, 1..Len(m.sv))].k IN Api("setSV") @@ [k |-> k, val |-> VarVal(x)]
    [] kind = "setDV" -> LET k == IF m.dv = <<>> THEN "N:1" ELSE m.dv[R(x, 1..Len(m.dv))].k IN Api("setDV") @@ [k |-> k, val |-> VarVal(x)]
    [] kind = "trigger" -> Api("trigger") @@ [ks |-> LET c == Pick(x, <<1, 1, 1, 2, 3>>) IN [i \in 1..c |-> CeSome(x)]]
    [] kind = "raise" -> Api("raise") @@ [id |-> IF m.al = <<>> \/ Chance(x, 5) THEN "12345" ELSE m.al[R(x, 1..Len(m.al))].id, set |-> Chance(x, 60)]
    [] kind = "enAlarm" -> Api("enAlarm") @@ [id |-> IF m.al = <<>> \/ Chance(x, 5) THEN "12345" ELSE m.al[R(x, 1..Len(m.al))].id, set |-> Chance(x, 50)]
    [] kind = "regAlarm" -> Api("regAlarm") @@ [al |-> AlarmOf(x, R(x, 1..7))]
    [] kind = "regSV" -> Api("regSV") @@ SvOf(x, Pick(x, SvKeys))
    [] kind = "regCE" -> Api("regCE") @@ [k |-> Pick(x, CeKeys)]
    [] kind = "regPP" -> Api("regPP") @@ [k |-> Pick(x, Ppids), body |-> Prog(x)]
    [] kind = "listPP" -> Api("listPP")
    [] kind = "handlers" -> Api("handlers") @@ [h |-> Handlers(x)]
    [] kind = "time" -> Api("time") @@ [t |-> Pick(x, <<"2024022923595900", "1970010100000000", "2038011903140800", "2024123123595900", "2025010100000000", "2100022800010100", "0999110112000000", "">>)]
    [] kind \in {"swOn", "swOff", "swLocal", "swRemote"} -> [Api(kind) EXCEPT !.s1f1 = IF kind = "swOn" THEN S1F1Hows(x) ELSE "ok"]

Kinds ==
  CASE Mix = "c15" -> <<"swOn", "swOn", "swOff", "swLocal", "swRemote", "S1F15", "S1F17", "S1F17", "S1F1", "S1F13">>
    [] Mix = "c16" -> <<"S2F33", "S2F33", "S2F33", "S2F35", "S2F35", "S2F35", "S2F37", "S6F15", "S6F15", "S6F15", "trigger", "regCE", "regSV">>
    [] Mix = "c17" -> <<"S2F33", "S2F33", "S2F35", "S2F35", "S2F37", "S6F15", "S6F15", "trigger", "trigger", "trigger", "setSV", "setDV">>
    [] Mix = "c18" -> <<"raise", "raise", "raise", "enAlarm", "regAlarm", "S5F3", "S5F3", "S5F3", "S5F5", "S5F5", "S5F7">>
    [] Mix = "c19" -> <<"S1F3", "S1F11", "S2F13", "S2F13", "S2F15", "S2F15", "S2F15", "S2F29", "setSV", "regSV">>
    [] Mix = "c20" -> <<"S2F41", "S2F41", "S2F41", "handlers">>
    [] Mix = "c21" -> <<"S7F3", "S7F3", "S7F5", "S7F5", "regPP", "listPP", "handlers">>
    [] Mix = "c22" -> <<"S2F17", "S2F31", "S2F31", "S2F31", "handlers", "time">>
    [] Mix = "all" -> <<"S2F33", "S2F35", "S2F37", "S6F15", "trigger", "setSV", "raise", "enAlarm", "S5F3", "S5F5", "S1F3", "S2F15", "S2F13",
                        "S2F41", "S7F3", "S7F5", "S2F31", "handlers", "swOff", "swOn", "S1F15", "S1F17", "S1F13">>

(* ---- behaviours ---- *)
Do(op) ==                                  \* bound by quantifiers: a LET or an argument might be drawn again
  \E e \in {op} : \E o \in {CHOOSE o \in Outs(m, e) : TRUE} :
  /\ m' = o.m
  /\ hist' = Append(hist, e @@ [await |-> Len(o.tx), ectl |-> o.m.ctl, ecom |-> o.m.com, nchg |-> Len(o.chg)])
  /\ held' = (o.m.ctl = "AO" /\ o.m.com)

Init == m = <<>> /\ hist = <<>> /\ held = FALSE /\ n = 0
First == n = 0 /\ \E e \in {NewOp(hist)} :
         m' = NewState(e) /\ hist' = <<e>> /\ held' = FALSE
Up == n > 0 /\ ~m.sel /\ Do([op |-> "sel"])
Com == n > 0 /\ m.sel /\ ~m.com /\
       IF Mix \in {"c15", "all"} /\ Chance(hist, 40)
       THEN Do(Op(hist, Pick(hist, <<"raise", "trigger", "S1F17", "S1F15", "swOn", "S5F5">>)))
       ELSE Do([op |-> "com", by |-> Pick(hist, <<"host", "host", "eqp">>), s1f1 |-> S1F1Hows(hist)])
Held == n > 0 /\ m.com /\ held /\
        (CASE R(hist, 1..4) = 1 -> Do([op |-> "s1f1", how |-> "ok"])
           [] R(hist, 1..3) = 1 -> Do([op |-> "s1f1", how |-> "fail"])
           [] R(hist, 1..4) = 1 -> Do([op |-> "down", kind |-> "close"])
           [] OTHER -> Do(Op(hist, Pick(hist, <<"swOn", "swOff", "swLocal", "swRemote", "S1F15", "S1F17", "S1F1">>))))
DownChance == IF Mix \in {"c15"} THEN 8 ELSE IF Mix \in {"all", "c17", "c18"} THEN 3 ELSE 0
Work == n > 0 /\ m.com /\ ~held /\
        IF Chance(hist, DownChance) THEN Do([op |-> "down", kind |-> Pick(hist, <<"close", "reset", "separate", "deselect">>)])
        ELSE Do(Op(hist, Pick(hist, Kinds)))
(* An attempt is abandoned by a connection loss; its T3 runs out during the next attempt *)
Script == <<[op |-> "sel"], [op |-> "com", by |-> "host", s1f1 |-> "hold"], [op |-> "down", kind |-> "close"], [op |-> "pause", ms |-> 1500],
            [op |-> "sel"], [op |-> "com", by |-> "host", s1f1 |-> "hold"], [op |-> "pauseOldT3"], Api("swOn"), [op |-> "s1f1", how |-> "ok"],
            Req(1, 1, 15, <<>>), Req(2, 1, 17, <<>>)>>
Scripted == Do(Script[n])
Next == /\ n' = n + 1
        /\ n < Depth
        /\ IF n = 0 THEN First ELSE IF Mix = "stale" THEN Scripted ELSE IF ~m.sel THEN Up ELSE IF ~m.com THEN Com ELSE IF held THEN Held ELSE Work
        /\ IF n + 1 = Depth THEN PrintT("SCN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Inv == n > 0 => GemInv(m)
=============================================================================
