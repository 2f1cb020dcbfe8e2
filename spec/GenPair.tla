------------------------------ MODULE GenPair ------------------------------
(* Random behaviours of a host and an equipment connected to it, for "vdrv
   pair": calls of the host, and what the equipment's application does.      *)
EXTENDS Host, Json, IOUtils
VARIABLES m, hist, held, n
G == INSTANCE GenGem
Op(x, kind) == G!Op(x, kind)
vars == <<m, hist, held, n>>
Chance(x, p) == G!Chance(x, p)
Pick(x, s) == G!Pick(x, s)
R(x, S) == RandomElement(S)
Some(x, q, max) == [i \in 1..G!Few(x, max) |-> G!AnyKey(x, q)]
SvK == [i \in 1..Len(m.sv) |-> m.sv[i].k] \o <<"N:99">>
EcK == [i \in 1..Len(m.ec) |-> m.ec[i].k] \o <<"N:99">>
NewVal(x) == Pick(x, <<<<NU("U2", ToString(500 + Len(hist)))>>, <<NA("t" \o ToString(Len(hist)))>>, <<NL(1), NB("3")>>, <<NU("U4", ToString(70000 + Len(hist)))>>,
                       <<NL(0)>>, <<Nd("I2", 1, <<"-77">>)>> >>)
Scalars == <<NU("U1", "0"), NU("U1", "255"), NU("U2", "256"), NU("U2", "65535"), NU("U4", "65536"), NU("U4", "4294967295"), NU("U8", "4294967296"),
             Nd("I1", 1, <<"-128">>), Nd("I1", 1, <<"127">>), Nd("I2", 1, <<"128">>), Nd("I2", 1, <<"-129">>), Nd("I2", 1, <<"-32768">>), Nd("I2", 1, <<"32767">>),
             Nd("I4", 1, <<"32768">>), Nd("I4", 1, <<"-32769">>), Nd("I4", 1, <<"2147483647">>), Nd("I8", 1, <<"2147483648">>), Nd("I8", 1, <<"-2147483649">>),
             Nd("BOOL", 1, <<"0">>), Nd("BOOL", 1, <<"1">>), Nd("F4", 1, <<"3ff8000000000000">>), NB("0"), Nd("B", 0, <<>>), NA("v")>>
Entry(x, pool, ids) == [k |-> G!AnyKey(x, pool), ids |-> IF Chance(x, 15) THEN <<>> ELSE Some(x, ids, 4)]
AlIds == [i \in 1..Len(m.al) |-> m.al[i].id] \o <<"12345">>
C(fn) == [op |-> "call", fn |-> fn]
Call(x, fn) ==
  CASE fn \in {"sv", "svInfo"} -> C(fn) @@ [ks |-> Some(x, SvK, 4)]
    [] fn \in {"ec", "ecInfo"} -> C(fn) @@ [ks |-> Some(x, EcK, 4)]
    [] fn = "setEc" -> C(fn) @@ [ups |-> [i \in 1..G!Few(x, 3) |-> [k |-> G!Pick(x, EcK), val |-> IF Chance(x, 2) THEN <<>> ELSE NewVal(x)]]]
    [] fn = "defRep" -> C(fn) @@ [es |-> [i \in 1..R(x, 0..2) |-> Entry(x, G!NewRpts(x), G!VidPool)]]
    [] fn = "linkRep" -> C(fn) @@ [es |-> [i \in 1..R(x, 0..2) |-> Entry(x, G!Events(x), G!OldRpts(x))]]
    [] fn = "enRep" -> C(fn) @@ [set |-> Chance(x, 65), ks |-> Some(x, G!Keys(DOMAIN m.lk, G!CeKeys), 2)]
    [] fn = "evRep" -> C(fn) @@ [k |-> G!CeSome(x)]
    [] fn = "cmd" -> C(fn) @@ [k |-> Pick(x, <<"S:START", "S:", "N:7", "S:stop now", "N:263", "N:4294967303">>),
                               ps |-> [i \in 1..G!Few(x, 3) |-> [k |-> Pick(x, <<"S:p", "N:3", "S:", "S:P", "N:259", "S:LONGNAME_of_a_parameter">>), val |-> IF Chance(x, 50) THEN <<Pick(x, Scalars)>> ELSE G!V(R(x, 1..G!Vs))]]]
    [] fn = "putPP" -> C(fn) @@ [k |-> G!AnyKey(x, G!Ppids), body |-> G!Prog(x)]
    [] fn = "getPP" -> C(fn) @@ [k |-> G!AnyKey(x, G!Ppids)]
    [] fn = "setTime" -> C(fn) @@ [t |-> G!Times(x)]
    [] fn = "enAl" -> C(fn) @@ [set |-> Chance(x, 60), ids |-> [i \in 1..G!Few(x, 3) |-> Pick(x, AlIds)]]
    [] OTHER -> C(fn)
Fns == IF G!Mix = "cmd" THEN <<"cmd">> ELSE <<"sv", "svInfo", "ec", "ecInfo", "setEc", "setEc", "defRep", "defRep", "defRep", "linkRep", "linkRep", "linkRep", "enRep", "evRep", "evRep", "cmd", "cmd",
         "putPP", "getPP", "time", "setTime", "enAl", "enAl", "alList", "alEn">>
ReadFns == <<"sv", "svInfo", "ec", "ecInfo", "evRep", "evRep", "alList", "alEn">> \o (IF m.t # "" THEN <<"time">> ELSE <<>>) \o (IF m.h.ppr.k = "none" THEN <<"getPP", "getPP">> ELSE <<>>)
Kinds == <<"trigger", "trigger", "trigger", "setSV", "setSV", "setDV", "raise", "raise", "enAlarm", "regAlarm", "regSV", "regCE", "regPP", "listPP", "handlers", "handlers", "time", "swOff">> \o (IF m.ctl = "EO" THEN <<"swOn", "swOn", "swOn">> ELSE <<>>)
(* What e does, for the driver to know what to wait for *)
After(e) ==
  CASE e.op = "call" -> IF Local(e) # {} \/ ~m.com THEN Out(m, NoRep) ELSE CHOOSE o \in ReqOuts(m, ReqOf(e)) : TRUE
    [] e.op = "par" -> [Out(m, NoRep) EXCEPT !.tx = Concat([i \in 1..Len(e.trig) |-> (CHOOSE o \in TriggerOut(m, <<e.trig[i]>>) : TRUE).tx])]
    [] e.op = "api" -> CHOOSE o \in ApiOuts(m, e) : TRUE
    [] e.op = "link" -> BecomeCommunicating(Out([m EXCEPT !.sel = TRUE], NoRep), "ok")
    [] e.op = "cut" -> LoseCommunication(Out([m EXCEPT !.sel = FALSE], NoRep))
Do(op) == \E e \in {op} : \E o \in {After(e)} :
  /\ m' = o.m
  /\ hist' = Append(hist, e @@ [await |-> Len(o.tx), ectl |-> o.m.ctl, ecom |-> o.m.com, nchg |-> Len(o.chg)])
  /\ UNCHANGED held
Init == m = <<>> /\ hist = <<>> /\ held = FALSE /\ n = 0
First == \E e0 \in {G!NewOp(hist)} : \E e \in {[e0 EXCEPT !.init = IF @ = "HO" /\ Chance(n, 70) THEN "EO" ELSE @] @@ [active |-> Chance(n, 40)]} : m' = NewState(e) /\ hist' = <<e>> /\ held' = FALSE
Step ==
  IF ~m.com THEN (IF Chance(n, 30) THEN Do(Call(n, Pick(n, Fns))) ELSE Do([op |-> "link"]))
  ELSE IF Chance(n, 1) THEN Do([op |-> "cut", by |-> Pick(n, <<"host", "host", "eqp">>)])
  ELSE IF Chance(n, 12) THEN Do([op |-> "par", calls |-> [i \in 1..R(n, 2..6) |-> Call(n + i, Pick(n + i, ReadFns))], trig |-> [i \in 1..R(n, 0..4) |-> G!CeSome(n + i)]])
  ELSE IF Chance(n, 62) THEN Do(Call(n, Pick(n, Fns)))
  ELSE Do(Op(n, Pick(n, Kinds)))
Next == /\ n' = n + 1 /\ n < G!Depth
        /\ IF n = 0 THEN First ELSE Step
        /\ IF n + 1 = G!Depth THEN PrintT("SCN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
