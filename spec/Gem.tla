--------------------------------- MODULE Gem ---------------------------------
(* The GEM equipment as seen by its host and its operator (SEMI E30 with the E5
   messages of this implementation). The state m is one record:

     com        COMMUNICATING
     sel        the HSMS connection is selected
     ctl, mode  control state ("EO" equipment offline, "AO" attempt online,
                "HO" host offline, "OL"/"OR" online local/remote), last mode
     sv, dv     status and data variables in registration order [k, name, unit, val]
     ec         equipment constants [k, name, unit, min, max, def, val, rule]
     ce         keys of the collection events
     rp         report key -> keys of its variables, in order
     lk         event key -> [rs: report keys in order, en: enabled]
     al         alarms in id order [id, text, set, en]
     pp         program key -> body
     h          application handlers [cmd, up, ppr, clk], t the time provider's text

   Values are node sequences, <<>> for no value. Outs(m, e) is the set of allowed
   outcomes of operation e: the next state, the reply pattern, the callbacks, the
   unsolicited messages, the control state changes and the result of an API call. *)
EXTENDS Nodes

None == [m |-> 0]
NoRep == [k |-> "none"]
AnyRep == [k |-> "any"]
Rep(s, f, body) == [k |-> "rep", s |-> s, f |-> f, body |-> body]
Out(m, rep) == [m |-> m, rep |-> rep, cbs |-> <<>>, tx |-> <<>>, chg |-> <<>>, err |-> "none", list |-> {}]

ItemOrEmpty(v) == IF v = <<>> THEN <<NL(0)>> ELSE v
Find(s, k) == LET is == {i \in 1..Len(s) : s[i].k = k} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
VidVal(m, k) == LET i == Find(m.sv, k) j == Find(m.dv, k) IN
                IF i # 0 THEN m.sv[i].val ELSE IF j # 0 THEN m.dv[j].val ELSE <<>>
VidExists(m, k) == Find(m.sv, k) # 0 \/ Find(m.dv, k) # 0
Online(m) == m.ctl \in {"OL", "OR"}

(* ------------------------- variables, constants ------------------------- *)
(* The entries an S1F3/S1F11/S2F13/S2F29 asks for: indices into s, 0 unknown; each with its id or "" *)
Asked(ns, s) ==
  IF ns[1].n = 0 THEN [i \in 1..Len(s) |-> [i |-> i, k |-> s[i].k]]
  ELSE [j \in 1..ns[1].n |-> LET nd == ns[Kid(ns, 1, j)] IN
         IF nd.t # "L" /\ IdOK(nd) THEN [i |-> Find(s, Key(nd)), k |-> Key(nd)] ELSE [i |-> 0, k |-> ""]]
EcVal(c) == IF c.val # <<>> THEN c.val ELSE c.def
AskedId(a) == IF a.k = "" THEN <<NL(0)>> ELSE <<PId(a.k)>>

Values(m, ns, s, val(_)) ==
  LET as == Asked(ns, s) IN
  <<NL(Len(as))>> \o Concat([j \in 1..Len(as) |-> IF as[j].i = 0 THEN <<NL(0)>> ELSE ItemOrEmpty(val(s[as[j].i]))])
S1F12Body(m, ns) ==
  LET as == Asked(ns, m.sv) IN
  <<NL(Len(as))>> \o Concat([j \in 1..Len(as) |-> <<NL(3)>> \o AskedId(as[j]) \o
      (IF as[j].i = 0 THEN <<NA(""), NA("")>> ELSE <<NA(m.sv[as[j].i].name), NA(m.sv[as[j].i].unit)>>)])
S2F30Body(m, ns) ==
  LET as == Asked(ns, m.ec) IN
  <<NL(Len(as))>> \o Concat([j \in 1..Len(as) |-> <<NL(6)>> \o AskedId(as[j]) \o
      (IF as[j].i = 0 THEN <<NA(""), NL(0), NL(0), NL(0), NA("")>>
       ELSE LET c == m.ec[as[j].i] IN
            <<NA(c.name)>> \o ItemOrEmpty(c.min) \o ItemOrEmpty(c.max) \o ItemOrEmpty(c.def) \o <<NA(c.unit)>>)])

(* The validators the driver installs *)
RuleOK(rule, val) == CASE rule = "any" -> TRUE
                       [] rule = "none" -> FALSE
                       [] rule = "text" -> val[1].t = "A"
                       [] rule = "num" -> val[1].t \in UFmts /\ val[1].n = 1
                       [] rule = "ext" -> TRUE
                       [] rule = "exttext" -> val[1].t = "A"                        \* the application's updater refuses
                       [] rule = "upd" -> ~(val[1].t \in UFmts /\ val[1].n = 1)

S2F15Out(m, e) ==
  LET ns == e.nodes
      bad == ~IsList(ns, 1)
      ks == Kids(ns, 1)
      badEntry(i) == ~IsList(ns, i) \/ ns[i].n < 2 \/ ns[Kid(ns, i, 1)].t = "L" \/ ~IdOK(ns[Kid(ns, i, 1)])
      k(i) == Key(ns[Kid(ns, i, 1)])
      val(i) == Sub(ns, Kid(ns, i, 2))
      mal == {j \in 1..Len(ks) : badEntry(ks[j])}
      unk == {j \in 1..Len(ks) : j \notin mal /\ Find(m.ec, k(ks[j])) = 0}
      ref == {j \in 1..Len(ks) : j \notin mal \cup unk /\ ~RuleOK(m.ec[Find(m.ec, k(ks[j]))].rule, val(ks[j]))}
      codes == (IF mal # {} THEN <<"2">> ELSE <<>>) \o (IF unk # {} THEN <<"1">> ELSE <<>>) \o (IF ref # {} THEN <<"3">> ELSE <<>>)
      \* later entries of the same constant win
      new(c) == LET js == {j \in 1..Len(ks) : k(ks[j]) = c.k} IN
                IF js = {} THEN c ELSE [c EXCEPT !.val = val(ks[CHOOSE j \in js : \A i \in js : i <= j])]
  IN IF bad THEN {Out(m, Rep(2, 16, <<PNonZero>>))}
     ELSE IF codes # <<>> THEN {Out(m, Rep(2, 16, <<PCode(codes)>>))}
     ELSE {Out([m EXCEPT !.ec = [i \in 1..Len(m.ec) |-> new(m.ec[i])]], Rep(2, 16, <<PCode(<<"0">>)>>))}

(* --------------------- reports, links, event reports --------------------- *)
(* S2F33/S2F35: <L[2] DATAID <L[n] <L[2] id <L ids>>>>, or the list of entries alone *)
Entries(ns) ==
  IF ~IsList(ns, 1) THEN [ok |-> FALSE, es |-> <<>>]
  ELSE IF ns[1].n = 0 THEN [ok |-> TRUE, es |-> <<>>]
  ELSE LET at == IF ns[2].t = "L" THEN 1 ELSE IF ns[1].n >= 2 THEN Kid(ns, 1, 2) ELSE 0 IN
       IF at = 0 \/ ~IsList(ns, at) THEN [ok |-> FALSE, es |-> <<>>]
       ELSE LET ks == Kids(ns, at)
                okEntry(i) == IsList(ns, i) /\ ns[i].n >= 2 /\ ns[Kid(ns, i, 1)].t # "L" /\ IdOK(ns[Kid(ns, i, 1)])
                              /\ IsList(ns, Kid(ns, i, 2))
                              /\ \A c \in Range(Kids(ns, Kid(ns, i, 2))) : ns[c].t # "L" /\ IdOK(ns[c])
                entry(i) == [k |-> Key(ns[Kid(ns, i, 1)]),
                             ids |-> LET cs == Kids(ns, Kid(ns, i, 2)) IN [c \in 1..Len(cs) |-> Key(ns[cs[c]])]]
            IN IF \A j \in 1..Len(ks) : okEntry(ks[j])
               THEN [ok |-> TRUE, es |-> [j \in 1..Len(ks) |-> entry(ks[j])]]
               ELSE [ok |-> FALSE, es |-> <<>>]

Without(s, k) == SelectSeq(s, LAMBDA x : x # k)
DropReport(m, k) ==
  LET lk1 == [c \in DOMAIN m.lk |-> [m.lk[c] EXCEPT !.rs = Without(m.lk[c].rs, k)]]
  IN [m EXCEPT !.rp = Del(m.rp, {k}), !.lk = Del(lk1, {c \in DOMAIN lk1 : lk1[c].rs = <<>>})]
RECURSIVE Define(_, _)
Define(m, es) == IF es = <<>> THEN m
                 ELSE LET x == Head(es) IN
                      Define(IF x.ids = <<>> THEN DropReport(m, x.k) ELSE [m EXCEPT !.rp = Put(m.rp, x.k, x.ids)], Tail(es))
S2F33Out(m, e) ==
  LET p == Entries(e.nodes) es == p.es
      redef == \E j \in 1..Len(es) : es[j].ids # <<>> /\ es[j].k \in DOMAIN m.rp
      unk == \E j \in 1..Len(es) : \E i \in 1..Len(es[j].ids) : ~VidExists(m, es[j].ids[i])
      codes == (IF redef THEN <<"3">> ELSE <<>>) \o (IF unk THEN <<"4">> ELSE <<>>)
  IN IF ~p.ok THEN {Out(m, Rep(2, 34, <<PCode(<<"2">>)>>))}
     ELSE IF es = <<>> THEN {Out([m EXCEPT !.rp = EmptyMap, !.lk = EmptyMap], Rep(2, 34, <<PCode(<<"0">>)>>))}
     ELSE IF codes # <<>> THEN {Out(m, Rep(2, 34, <<PCode(codes)>>))}
     ELSE {Out(Define(m, es), Rep(2, 34, <<PCode(<<"0">>)>>))}

RECURSIVE LinkAll(_, _)
LinkAll(m, es) == IF es = <<>> THEN m
  ELSE LET x == Head(es)
           m1 == IF x.ids = <<>> THEN [m EXCEPT !.lk = Del(m.lk, {x.k})]
                 ELSE IF x.k \in DOMAIN m.lk THEN [m EXCEPT !.lk[x.k].rs = @ \o x.ids]
                 ELSE [m EXCEPT !.lk = Put(m.lk, x.k, [rs |-> x.ids, en |-> TRUE])]
       IN LinkAll(m1, Tail(es))
S2F35Out(m, e) ==
  LET p == Entries(e.nodes) es == p.es
      idx == {<<j, i>> : j \in 1..Len(es), i \in 1..8}
      links == {x \in idx : x[2] <= Len(es[x[1]].ids)}
      noce == \E j \in 1..Len(es) : es[j].k \notin m.ce
      norp == \E x \in links : es[x[1]].ids[x[2]] \notin DOMAIN m.rp
      dup == \/ \E x \in links : es[x[1]].k \in DOMAIN m.lk /\ es[x[1]].ids[x[2]] \in Range(m.lk[es[x[1]].k].rs)
             \/ \E x \in links, y \in links : x # y /\ es[x[1]].k = es[y[1]].k /\ es[x[1]].ids[x[2]] = es[y[1]].ids[y[2]]
      codes == (IF noce THEN <<"4">> ELSE <<>>) \o (IF norp THEN <<"5">> ELSE <<>>) \o (IF dup THEN <<"3">> ELSE <<>>)
  IN IF ~p.ok THEN {Out(m, Rep(2, 36, <<PCode(<<"2">>)>>))}
     ELSE IF codes # <<>> THEN {Out(m, Rep(2, 36, <<PCode(codes)>>))}
     ELSE {Out(LinkAll(m, es), Rep(2, 36, <<PCode(<<"0">>)>>))}

S2F37Out(m, e) ==
  LET ns == e.nodes
      okHead == IsList(ns, 1) /\ ns[1].n >= 2 /\ ns[2].t \in {"B", "BOOL"} /\ ns[2].n >= 1 /\ IsList(ns, 3)
      cs == Kids(ns, 3)
      ok == okHead /\ \A i \in Range(cs) : ns[i].t # "L" /\ IdOK(ns[i])
      en == ns[2].v[1] # "0"
      ks == IF cs = <<>> THEN DOMAIN m.lk ELSE {Key(ns[i]) : i \in Range(cs)}
  IN IF ~ok THEN {Out(m, Rep(2, 38, <<PNonZero>>))}
     ELSE IF ~(ks \subseteq DOMAIN m.lk) THEN {Out(m, Rep(2, 38, <<PCode(<<"1">>)>>))}
     ELSE {Out([m EXCEPT !.lk = [c \in DOMAIN m.lk |-> IF c \in ks THEN [m.lk[c] EXCEPT !.en = en] ELSE m.lk[c]]],
               Rep(2, 38, <<PCode(<<"0">>)>>))}

ReportsOn(m, c) == c \in DOMAIN m.lk /\ m.lk[c].en
EventBody(m, c) ==
  LET rs == m.lk[c].rs
      report(r) == <<NL(2), PId(r), NL(Len(m.rp[r]))>> \o Concat([i \in 1..Len(m.rp[r]) |-> ItemOrEmpty(VidVal(m, m.rp[r][i]))])
  IN <<NL(3), PUnknown, PId(c), NL(Len(rs))>> \o Concat([i \in 1..Len(rs) |-> report(rs[i])])
S6F15Out(m, e) ==
  LET ns == e.nodes
      at == IF ns = <<>> THEN 0 ELSE IF ns[1].t # "L" THEN 1 ELSE IF ns[1].n = 0 THEN 0 ELSE 2
      ok == at # 0 /\ ns[at].t # "L" /\ IdOK(ns[at])
      c == Key(ns[at])
  IN IF ~ok THEN {Out(m, AnyRep)}
     ELSE IF ReportsOn(m, c) THEN {Out(m, Rep(6, 16, EventBody(m, c)))}
     ELSE {Out(m, Rep(6, 16, <<NL(3), PUnknown, PId(c), NL(0)>>))}

(* -------------------------------- alarms -------------------------------- *)
AlarmAt(m, id) == LET is == {i \in 1..Len(m.al) : m.al[i].id = id} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
Alcd(a) == IF a.set THEN (IF a.en THEN "192" ELSE "128") ELSE (IF a.en THEN "64" ELSE "0")
AlarmList(as) == <<NL(Len(as))>> \o Concat([i \in 1..Len(as) |-> <<NL(3), NB(Alcd(as[i])), PNum(as[i].id), NA(as[i].text)>>])
S5F3Out(m, e) ==
  LET ns == e.nodes
      ok == IsList(ns, 1) /\ ns[1].n >= 2 /\ ns[2].t = "B" /\ ns[2].n = 1 /\ IsList(ns, 3)
            /\ \A i \in Range(Kids(ns, 3)) : ns[i].t \in UFmts \cup IFmts /\ ns[i].n >= 1
      ids == {ns[i].v[1] : i \in Range(Kids(ns, 3))}
  IN IF ~ok \/ \E id \in ids : AlarmAt(m, id) = 0 THEN {Out(m, Rep(5, 4, <<PNonZero>>))}
     ELSE {Out([m EXCEPT !.al = [i \in 1..Len(m.al) |-> IF m.al[i].id \in ids THEN [m.al[i] EXCEPT !.en = (ns[2].v[1] = "128")] ELSE m.al[i]]],
               Rep(5, 4, <<PCode(<<"0">>)>>))}
S5F1(a, set) == [s |-> 5, f |-> 1, w |-> 0, body |-> <<NL(3), IF set THEN PNonZero ELSE PCode(<<"0">>), PNum(a.id), NA(a.text)>>]
RaiseOut(m, id, set) ==
  LET i == AlarmAt(m, id) IN
  IF ~m.com THEN {[Out(m, NoRep) EXCEPT !.err = "notcomm"]}
  ELSE IF i = 0 THEN {[Out(m, NoRep) EXCEPT !.err = "err"]}
  ELSE {[Out([m EXCEPT !.al[i].set = set], NoRep) EXCEPT !.tx = IF m.al[i].en THEN <<S5F1(m.al[i], set)>> ELSE <<>>]}

TriggerOut(m, ks) ==
  IF ~m.com THEN {[Out(m, NoRep) EXCEPT !.err = "notcomm"]}
  ELSE {[Out(m, NoRep) EXCEPT !.tx =
           LET on == SelectSeq(ks, LAMBDA c : ReportsOn(m, c)) IN
           [i \in 1..Len(on) |-> [s |-> 6, f |-> 11, w |-> 0, body |-> EventBody(m, on[i])]]]}

(* ---------------------- remote commands and programs ---------------------- *)
S2F41Out(m, e) ==
  LET ns == e.nodes
      ok == IsList(ns, 1) /\ ns[1].n >= 1 /\ ns[2].t # "L" /\ IdOK(ns[2])
      hasList == ns[1].n >= 2 /\ IsList(ns, Kid(ns, 1, 2))
      ks == IF hasList THEN Kids(ns, Kid(ns, 1, 2)) ELSE <<>>
      okEntry(i) == IsList(ns, i) /\ ns[i].n >= 1 /\ ns[Kid(ns, i, 1)].t # "L" /\ IdOK(ns[Kid(ns, i, 1)])
      good == SelectSeq(ks, okEntry)
      par(i) == [id |-> Key(ns[Kid(ns, i, 1)]), nm |-> ns[Kid(ns, i, 1)].v[1], val |-> IF ns[i].n >= 2 THEN Sub(ns, Kid(ns, i, 2)) ELSE <<>>]
      call == [k |-> "cmd", id |-> Key(ns[2]), a |-> ns[2].v[1], ps |-> [j \in 1..Len(good) |-> par(good[j])]]
      clean == hasList /\ Len(good) = Len(ks)
      h == m.h.cmd
      acks == Concat([i \in 1..Len(h.acks) |-> <<NL(2), PId(h.acks[i].id),
                      IF h.acks[i].ack \in 1..63 THEN NB(ToString(h.acks[i].ack)) ELSE PByte>>])
      res == IF h.err THEN Rep(2, 42, <<NL(2), PNonZero, PRest>>)
             ELSE Rep(2, 42, <<NL(2), IF h.hcack \in 0..6 THEN NB(ToString(h.hcack)) ELSE PByte, NL(Len(h.acks))>> \o acks)
      refused == Out(m, Rep(2, 42, <<NL(2), PCode(<<"1">>), NL(0)>>))
  IN IF ~ok THEN {refused}
     ELSE IF h.k = "none" THEN {[Out(m, Rep(2, 42, <<NL(2), PNonZero, NL(0)>>)) EXCEPT !.cbs = <<>>]}
     ELSE {[Out(m, res) EXCEPT !.cbs = <<call>>]} \cup (IF clean THEN {} ELSE {refused})

S7F3Out(m, e) ==
  LET ns == e.nodes
      ok == IsList(ns, 1) /\ ns[1].n >= 2 /\ ns[2].t # "L" /\ IdOK(ns[2]) /\ ns[Kid(ns, 1, 2)].t = "A"
      k == Key(ns[2])
      body == ns[Kid(ns, 1, 2)].v[1]
      h == m.h.up
      stored == [m EXCEPT !.pp = Put(m.pp, k, body)]
      call == [k |-> "upload", id |-> k, a |-> body, ps |-> <<>>]
  IN IF ~ok THEN {Out(m, Rep(7, 4, <<PNonZero>>))}
     ELSE IF h.k = "none" THEN {Out(stored, Rep(7, 4, <<PCode(<<"0">>)>>))}
     ELSE {[Out(IF h.ack = 0 THEN stored ELSE m, Rep(7, 4, <<NB(ToString(h.ack))>>)) EXCEPT !.cbs = <<call>>]}

S7F5Out(m, e) ==
  LET ns == e.nodes
      at == IF ns = <<>> THEN 0 ELSE IF ns[1].t # "L" THEN 1 ELSE IF ns[1].n = 0 THEN 0 ELSE 2
      ok == at # 0 /\ ns[at].t # "L" /\ IdOK(ns[at])
      k == Key(ns[at])
      h == m.h.ppr
  IN IF ~ok THEN {Out(m, Rep(7, 6, <<NL(3), NL(0), NA(""), PNonZero>>))}
     ELSE IF h.k # "none"
          THEN {[Out(m, Rep(7, 6, <<NL(3), PId(k), IF h.ack = 0 THEN Nd("A", h.n, <<h.body>>) ELSE NA(""), NB(ToString(h.ack))>>))
                 EXCEPT !.cbs = <<[k |-> "ppreq", id |-> k, a |-> "", ps |-> <<>>]>>]}
     ELSE IF k \in DOMAIN m.pp THEN {Out(m, Rep(7, 6, <<NL(3), PId(k), Nd("TEXT", 0, <<m.pp[k]>>), PCode(<<"0">>)>>))}
     ELSE {Out(m, Rep(7, 6, <<NL(3), PId(k), NA(""), PNonZero>>))}

(* --------------------------------- clock --------------------------------- *)
DigitVal == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
AllDigits(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in DOMAIN DigitVal
RECURSIVE NumOf(_)
NumOf(s) == IF Len(s) = 0 THEN 0 ELSE 10 * NumOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal[SubSeq(s, Len(s), Len(s))]
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, mo) == CASE mo \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] mo \in {4, 6, 9, 11} -> 30 [] OTHER -> IF Leap(y) THEN 29 ELSE 28
ValidTime(s) ==   \* YYYYMMDDhhmmss
  /\ Len(s) = 14 /\ AllDigits(s)
  /\ LET y == NumOf(SubSeq(s, 1, 4)) mo == NumOf(SubSeq(s, 5, 6)) d == NumOf(SubSeq(s, 7, 8)) IN
     /\ mo \in 1..12 /\ d \in 1..MonthDays(y, mo)
     /\ NumOf(SubSeq(s, 9, 10)) < 24 /\ NumOf(SubSeq(s, 11, 12)) < 60 /\ NumOf(SubSeq(s, 13, 14)) < 60
S2F31Out(m, e) ==
  LET ns == e.nodes
      ok == ns # <<>> /\ ns[1].t = "A" /\ ns[1].n >= 14 /\ ValidTime(SubSeq(ns[1].v[1], 1, 14))
      h == m.h.clk
  IN IF ~ok \/ h.k = "none" THEN {Out(m, Rep(2, 32, <<PNonZero>>))}
     ELSE {[Out(m, Rep(2, 32, <<IF h.err THEN PNonZero ELSE NB(ToString(h.code))>>))
            EXCEPT !.cbs = <<[k |-> "clock", id |-> "", a |-> SubSeq(ns[1].v[1], 1, 14), ps |-> <<>>]>>]}
S2F17Out(m, e) ==   \* the driver lists the seconds that passed during the request when no time provider is set
  {Out(m, Rep(2, 18, <<Nd("TIME", 0, IF m.t # "" THEN <<m.t>> ELSE IF "now" \in DOMAIN e THEN e.now ELSE <<>>)>>))}

(* ----------------------------- control state ----------------------------- *)
OnlineState(m) == IF m.mode = "LOCAL" THEN "OL" ELSE "OR"
Chg(o, s) == [o EXCEPT !.m.ctl = s, !.chg = Append(o.chg, <<o.m.ctl, s>>)]
(* ATTEMPT ONLINE with the S1F1 answered as how: "ok" S1F2, "fail" otherwise, "hold" not yet *)
Attempt(o, how) ==
  LET a == Chg(o, "AO") IN
  CASE how = "ok" -> Chg(a, OnlineState(a.m)) [] how \in {"fail", "timeout"} -> Chg(a, "HO") [] how = "hold" -> a
BecomeCommunicating(o, how) ==
  LET o1 == [o EXCEPT !.m.com = TRUE] IN
  IF o.m.com THEN o ELSE IF o.m.ctl = "EO" THEN Attempt(o1, how) ELSE o1
LoseCommunication(o) ==
  LET o1 == [o EXCEPT !.m.com = FALSE] IN
  IF o.m.com /\ o.m.ctl \in {"OL", "OR", "AO"} THEN Chg(o1, "EO") ELSE o1
Switch(m, fn, how) ==
  LET o == Out(m, NoRep) bad == [o EXCEPT !.err = "err"] IN
  CASE fn = "swOn" -> IF m.ctl = "EO" THEN {IF m.com THEN Attempt(o, how) ELSE Chg(Chg(o, "AO"), "HO")}
                      ELSE IF m.ctl = "HO" THEN {bad} ELSE {o}
    [] fn = "swOff" -> IF Online(m) THEN {Chg(o, "EO")} ELSE {o, bad}
    [] fn = "swLocal" -> IF m.ctl = "OR" THEN {Chg([o EXCEPT !.m.mode = "LOCAL"], "OL")}
                         ELSE IF m.ctl = "OL" THEN {o, bad} ELSE {bad}
    [] fn = "swRemote" -> IF m.ctl = "OL" THEN {Chg([o EXCEPT !.m.mode = "REMOTE"], "OR")}
                          ELSE IF m.ctl = "OR" THEN {o, bad} ELSE {bad}
S1F15Out(m) ==
  IF Online(m) THEN {Chg(Out(m, Rep(1, 16, <<NL(1), PCode(<<"0">>)>>)), "HO")}
  ELSE {Out(m, Rep(1, 16, <<NL(1), PByte>>))}
S1F17Out(m) ==
  IF m.ctl = "HO" THEN {Chg(Out(m, Rep(1, 18, <<NL(1), PCode(<<"0">>)>>)), OnlineState(m))}
  ELSE {Out(m, Rep(1, 18, <<NL(1), PCode(IF Online(m) THEN <<"2">> ELSE <<"1">>)>>))}

(* ------------------------------- dispatch ------------------------------- *)
S1F13Outs(m, how) == {BecomeCommunicating(Out(m, Rep(1, 14, <<NL(2), PCode(<<"0">>), NL(2), NA(m.mdln), NA(m.rev)>>)), how)}
ReqOuts(m, e) ==
  LET listReq(o) == IF IsList(e.nodes, 1) THEN {o} ELSE {Out(m, AnyRep)}
      ns == e.nodes IN
  CASE e.s = 1 /\ e.f = 1  -> {Out(m, Rep(1, 2, <<NL(1), NL(2), NA(m.mdln), NA(m.rev)>>))}
    [] e.s = 1 /\ e.f = 13 -> S1F13Outs(m, e.s1f1)
    [] e.s = 1 /\ e.f = 3  -> listReq(Out(m, Rep(1, 4, IF IsList(ns, 1) THEN Values(m, ns, m.sv, LAMBDA x : x.val) ELSE <<>>)))
    [] e.s = 1 /\ e.f = 11 -> listReq(Out(m, Rep(1, 12, IF IsList(ns, 1) THEN S1F12Body(m, ns) ELSE <<>>)))
    [] e.s = 1 /\ e.f = 15 -> S1F15Out(m)
    [] e.s = 1 /\ e.f = 17 -> S1F17Out(m)
    [] e.s = 2 /\ e.f = 13 -> listReq(Out(m, Rep(2, 14, IF IsList(ns, 1) THEN Values(m, ns, m.ec, EcVal) ELSE <<>>)))
    [] e.s = 2 /\ e.f = 15 -> S2F15Out(m, e)
    [] e.s = 2 /\ e.f = 17 -> S2F17Out(m, e)
    [] e.s = 2 /\ e.f = 29 -> listReq(Out(m, Rep(2, 30, IF IsList(ns, 1) THEN S2F30Body(m, ns) ELSE <<>>)))
    [] e.s = 2 /\ e.f = 31 -> S2F31Out(m, e)
    [] e.s = 2 /\ e.f = 33 -> S2F33Out(m, e)
    [] e.s = 2 /\ e.f = 35 -> S2F35Out(m, e)
    [] e.s = 2 /\ e.f = 37 -> S2F37Out(m, e)
    [] e.s = 2 /\ e.f = 41 -> S2F41Out(m, e)
    [] e.s = 5 /\ e.f = 3  -> S5F3Out(m, e)
    [] e.s = 5 /\ e.f = 5  -> {Out(m, Rep(5, 6, AlarmList(m.al)))}
    [] e.s = 5 /\ e.f = 7  -> {Out(m, Rep(5, 8, AlarmList(SelectSeq(m.al, LAMBDA a : a.en))))}
    [] e.s = 6 /\ e.f = 15 -> S6F15Out(m, e)
    [] e.s = 7 /\ e.f = 3  -> S7F3Out(m, e)
    [] e.s = 7 /\ e.f = 5  -> S7F5Out(m, e)

SetVal(s, k, val) == [i \in 1..Len(s) |-> IF s[i].k = k THEN [s[i] EXCEPT !.val = val] ELSE s[i]]
InsertAlarm(as, a) ==   \* a.rank is the position the driver's list has it at: alarms are kept in id order
  LET rest == SelectSeq(as, LAMBDA x : x.rank # a.rank)
      k == Cardinality({i \in 1..Len(rest) : rest[i].rank < a.rank})
  IN SubSeq(rest, 1, k) \o <<a>> \o SubSeq(rest, k + 1, Len(rest))
ApiOuts(m, e) ==
  LET o == Out(m, NoRep) IN
  CASE e.fn \in {"swOn", "swOff", "swLocal", "swRemote"} -> Switch(m, e.fn, e.s1f1)
    [] e.fn = "raise" -> RaiseOut(m, e.id, e.set)
    [] e.fn = "enAlarm" -> {IF AlarmAt(m, e.id) = 0 THEN [o EXCEPT !.err = "err"] ELSE [o EXCEPT !.m.al[AlarmAt(m, e.id)].en = e.set]}
    [] e.fn = "regAlarm" -> {[o EXCEPT !.m.al = InsertAlarm(m.al, e.al)]}
    [] e.fn = "trigger" -> TriggerOut(m, e.ks)
    [] e.fn = "setSV" -> {[o EXCEPT !.m.sv = SetVal(m.sv, e.k, e.val)]}
    [] e.fn = "setDV" -> {[o EXCEPT !.m.dv = SetVal(m.dv, e.k, e.val)]}
    [] e.fn = "regSV" -> {IF Find(m.sv, e.k) # 0 THEN [o EXCEPT !.err = "err"]
                          ELSE [o EXCEPT !.m.sv = Append(m.sv, [k |-> e.k, name |-> e.name, unit |-> e.unit, val |-> e.val])]}
    [] e.fn = "regCE" -> {IF e.k \in m.ce THEN [o EXCEPT !.err = "err"] ELSE [o EXCEPT !.m.ce = m.ce \cup {e.k}]}
    [] e.fn = "regPP" -> {[o EXCEPT !.m.pp = Put(m.pp, e.k, e.body)]}
    [] e.fn = "listPP" -> {[o EXCEPT !.list = {<<k, m.pp[k]>> : k \in DOMAIN m.pp}]}
    [] e.fn = "listSets" -> {o}
    [] e.fn = "handlers" -> {[o EXCEPT !.m.h = e.h]}
    [] e.fn = "time" -> {[o EXCEPT !.m.t = e.t]}

Outs(m, e) ==
  CASE e.op = "req" -> ReqOuts(m, e)
    [] e.op = "api" -> ApiOuts(m, e)
    [] e.op = "sel" -> {Out([m EXCEPT !.sel = TRUE], NoRep)}
    [] e.op = "com" -> IF e.by = "host" THEN S1F13Outs(m, e.s1f1) ELSE {BecomeCommunicating(Out(m, NoRep), e.s1f1)}
    [] e.op = "s1f1" -> {Chg(Out(m, NoRep), IF e.how = "ok" THEN OnlineState(m) ELSE "HO")}   \* the held S1F1 is resolved
    [] e.op = "down" -> {LoseCommunication(Out([m EXCEPT !.sel = FALSE], NoRep))}
    [] e.op \in {"pause", "pauseOldT3"} -> {Out(m, NoRep)}

NewState(e) ==
  [com |-> FALSE, sel |-> FALSE, ctl |-> IF e.init = "HO" THEN "HO" ELSE "EO", mode |-> e.mode, mdln |-> e.mdln, rev |-> e.rev,
   sv |-> e.sv, dv |-> e.dv, ec |-> e.ec, ce |-> Range(e.ce), rp |-> EmptyMap, lk |-> EmptyMap, al |-> e.al,
   pp |-> EmptyMap, t |-> "",
   h |-> [cmd |-> [k |-> "none", hcack |-> 0, acks |-> <<>>, err |-> FALSE], up |-> [k |-> "none", ack |-> 0],
          ppr |-> [k |-> "none", ack |-> 0, body |-> "", n |-> 0], clk |-> [k |-> "none", code |-> 0, err |-> FALSE]]]

(* ------------------------------ invariants ------------------------------ *)
GemInv(m) ==
  /\ \A c \in DOMAIN m.lk : c \in m.ce /\ m.lk[c].rs # <<>>
                            /\ \A i \in 1..Len(m.lk[c].rs) : m.lk[c].rs[i] \in DOMAIN m.rp
                            /\ \A a, b \in 1..Len(m.lk[c].rs) : a # b => m.lk[c].rs[a] # m.lk[c].rs[b]
  /\ \A r \in DOMAIN m.rp : m.rp[r] # <<>> /\ \A i \in 1..Len(m.rp[r]) : VidExists(m, m.rp[r][i])
  /\ m.ctl \in {"EO", "AO", "HO", "OL", "OR"}
  /\ (m.ctl = "AO" => m.com)
  /\ (m.com => m.sel)
  /\ (m.ctl = "OL" => m.mode = "LOCAL") /\ (m.ctl = "OR" => m.mode = "REMOTE")
(* The E30 control state transitions *)
E30 == {<<"EO","AO">>, <<"AO","OL">>, <<"AO","OR">>, <<"AO","HO">>, <<"AO","EO">>, <<"OL","OR">>, <<"OR","OL">>,
        <<"OL","EO">>, <<"OR","EO">>, <<"OL","HO">>, <<"OR","HO">>, <<"HO","OL">>, <<"HO","OR">>}
==============================================================================
