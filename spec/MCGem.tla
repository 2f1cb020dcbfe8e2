------------------------------- MODULE MCGem -------------------------------
(* The equipment model on a small alphabet, exhaustively: what C15 to C22 say
   in general terms is checked of every outcome the model allows.            *)
EXTENDS Gem, Json, IOUtils
CONSTANT Part          \* which messages and operations take part

VARIABLE m

Api(fn) == [op |-> "api", fn |-> fn, s1f1 |-> "ok"]
Req(s, f, ns) == [op |-> "req", s |-> s, f |-> f, w |-> 1, nodes |-> ns, s1f1 |-> "ok"]
IdN(i) == NU("U1", ToString(i))
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Body(ids) == <<NL(Len(ids))>> \o [i \in 1..Len(ids) |-> IdN(ids[i])]
Entry(id, ids) == <<NL(2), IdN(id)>> \o Body(ids)
Msg(es) == <<NL(2), IdN(0), NL(Len(es))>> \o Concat(es)

VarOf(i) == [k |-> "N:" \o ToString(i), name |-> "n", unit |-> "u", val |-> <<NU("U4", "0")>>]
StartOp == [op |-> "new", init |-> "EO", mode |-> "REMOTE", mdln |-> "m", rev |-> "r", sv |-> <<VarOf(1)>>, dv |-> <<VarOf(2)>>,
                   ec |-> <<[k |-> "N:1", name |-> "n", unit |-> "u", min |-> <<>>, max |-> <<>>, def |-> <<NB("0")>>, val |-> <<>>, rule |-> "any"],
                            [k |-> "N:2", name |-> "n", unit |-> "u", min |-> <<>>, max |-> <<>>, def |-> <<NB("0")>>, val |-> <<>>, rule |-> "text"]>>,
                   ce |-> <<"N:1", "N:2">>, t3 |-> 30, pp |-> <<>>,
                   al |-> <<[id |-> "1", rank |-> 1, text |-> "a", set |-> FALSE, en |-> TRUE], [id |-> "2", rank |-> 2, text |-> "b", set |-> FALSE, en |-> TRUE]>>]
Start == NewState(StartOp)

Defs == {Entry(r, v) : r \in 1..2, v \in {<<>>, <<1>>, <<2, 1>>, <<9>>}}
Links == {Entry(c, r) : c \in {1, 2, 9}, r \in {<<>>, <<1>>, <<2>>, <<1, 2>>, <<9>>, <<1, 1>>}}
Reports == {Req(2, 33, Msg(<<>>)), Req(2, 33, <<NL(0)>>), Req(2, 33, <<NA("x")>>), Req(2, 35, <<NL(2), NL(0), NA("")>>)}
           \cup {Req(2, 33, Msg(<<d>>)) : d \in Defs} \cup {Req(2, 33, Msg(<<d1, d2>>)) : d1 \in Defs, d2 \in {Entry(1, <<>>), Entry(1, <<9>>), Entry(2, <<1>>)}}
           \cup {Req(2, 35, Msg(<<d>>)) : d \in Links} \cup {Req(2, 35, Msg(<<d1, d2>>)) : d1 \in Links, d2 \in {Entry(1, <<>>), Entry(2, <<9>>), Entry(2, <<2>>)}}
           \cup {Req(2, 37, <<NL(2), NB(b)>> \o Body(c)) : b \in {"0", "1"}, c \in {<<>>, <<1>>, <<2, 1>>, <<1, 9>>}}
           \cup {Req(6, 15, <<IdN(c)>>) : c \in {1, 2, 9}} \cup {Api("trigger") @@ [ks |-> <<"N:1", "N:2">>]}
Control == {Api(f) : f \in {"swOn", "swOff", "swLocal", "swRemote"}} \cup {[Api("swOn") EXCEPT !.s1f1 = h] : h \in {"hold", "fail"}}
           \cup {Req(1, 15, <<>>), Req(1, 17, <<>>), Req(1, 13, <<>>)} \cup {[Req(1, 13, <<>>) EXCEPT !.s1f1 = h] : h \in {"hold", "fail"}}
           \cup {[op |-> "sel"], [op |-> "down", kind |-> "close"], [op |-> "down", kind |-> "separate"]} \cup {[op |-> "s1f1", how |-> h] : h \in {"ok", "fail"}}
           \cup {Api("raise") @@ [id |-> "1", set |-> TRUE]}
Alarms == {Req(5, 3, <<NL(2), NB(b)>> \o Body(a)) : b \in {"0", "128"}, a \in Lists({1, 2, 9}, 2)} \cup {Req(5, 3, <<NL(1), NB("0")>>)}
          \cup {Req(5, 5, <<>>), Req(5, 7, <<>>)} \cup {Api("raise") @@ [id |-> i, set |-> b] : i \in {"1", "2", "9"}, b \in BOOLEAN}
          \cup {Api("enAlarm") @@ [id |-> i, set |-> b] : i \in {"1", "9"}, b \in BOOLEAN}
Val(t) == IF t = "A" THEN <<NA("v")>> ELSE <<NB("5")>>
Consts == {Req(2, 15, <<NL(Len(es))>> \o Concat([i \in 1..Len(es) |-> <<NL(2), IdN(es[i][1])>> \o Val(es[i][2])])) : es \in Lists({1, 2, 9} \X {"A", "B"}, 2)}
          \cup {Req(2, 15, <<NL(1), NL(1), IdN(1)>>), Req(2, 13, <<NL(0)>>), Req(2, 29, <<NL(2), IdN(2), IdN(9)>>)}
          \cup {Req(7, 3, <<NL(2), IdN(p), NA(b)>>) : p \in 1..2, b \in {"x", "y"}} \cup {Req(7, 3, <<NL(2), IdN(1), NB("1")>>)} \cup {Req(7, 5, <<IdN(p)>>) : p \in 1..2}
          \cup {Api("handlers") @@ [h |-> [Start.h EXCEPT !.up = [k |-> k, ack |-> a]]] : k \in {"h", "none"}, a \in {0, 4}}
Ops == CASE Part = "reports" -> Reports [] Part = "control" -> Control [] Part = "alarms" -> Alarms [] Part = "consts" -> Consts
Up == [Start EXCEPT !.sel = TRUE, !.com = TRUE, !.ctl = "OR"]

Possible(e) == CASE e.op = "sel" -> ~m.sel
                 [] e.op = "down" -> m.sel
                 [] e.op = "s1f1" -> m.ctl = "AO"
                 [] e.op = "req" -> m.sel
                 [] OTHER -> TRUE

(* ---- what every outcome must satisfy ---- *)
Codes == {<<2, 16>>, <<2, 34>>, <<2, 36>>, <<2, 38>>, <<5, 4>>, <<7, 4>>}
Zero(p) == (p.t = "CODE" /\ p.v = <<"0">>) \/ (p.t = "B" /\ p.v = <<"0">>)
Refused(o) == \/ o.err # "none"
              \/ o.rep.k = "rep" /\ <<o.rep.s, o.rep.f>> \in Codes /\ ~Zero(o.rep.body[1])
              \/ o.rep.k = "rep" /\ <<o.rep.s, o.rep.f>> = <<1, 18>> /\ o.rep.body[2].v # <<"0">>
RECURSIVE Chain(_, _, _)
Chain(from, chg, to) == IF chg = <<>> THEN from = to ELSE Head(chg)[1] = from /\ Head(chg) \in E30 /\ Chain(Head(chg)[2], Tail(chg), to)
StepOK(e, o) ==
  /\ Refused(o) => o.m = m /\ o.tx = <<>> /\ o.chg = <<>>
  /\ Chain(m.ctl, o.chg, o.m.ctl)
  /\ ~m.com => o.tx = <<>>
  /\ (o.m.com # m.com) => e.op = "down" \/ (e.op = "req" /\ e.s = 1 /\ e.f = 13)
  /\ (e.op = "req" /\ e.f % 2 = 1) => o.rep.k # "none"
  /\ e.op = "api" /\ e.fn = "trigger" /\ m.com =>     \* one S6F11 per enabled, linked event; S6F15 says the same
       Len(o.tx) = Cardinality({c \in Range(e.ks) : c \in DOMAIN m.lk /\ m.lk[c].en})
       /\ \A i \in 1..Len(o.tx) : \E c \in Range(e.ks) : \E o2 \in S6F15Out(m, [nodes |-> <<NU("U1", SubSeq(c, 3, 3))>>]) : o2.rep.body = o.tx[i].body
  /\ e.op = "req" /\ <<e.s, e.f>> = <<2, 33>> /\ ~Refused(o) /\ o.m # m =>   \* nothing but reports and links to dropped ones
       [o.m EXCEPT !.rp = m.rp, !.lk = m.lk] = m
  /\ e.op = "req" /\ <<e.s, e.f>> = <<5, 3>> => \A i \in 1..Len(m.al) : o.m.al[i].set = m.al[i].set

(* With TOUR set, every transition is printed; bin/tour.py makes scenarios out of them that go through all of them. *)
Edge(e, o) == IF "TOUR" \in DOMAIN IOEnv
  THEN PrintT("EDGE " \o ToJson([f |-> m, t |-> o.m,
              e |-> e @@ [await |-> Len(o.tx), ectl |-> o.m.ctl, ecom |-> o.m.com, nchg |-> Len(o.chg)]]))
  ELSE TRUE
First == IF "TOUR" \in DOMAIN IOEnv THEN PrintT("START " \o ToJson([s |-> m, new |-> StartOp])) ELSE TRUE
Init == m = (IF Part = "control" THEN Start ELSE Up) /\ First
Next == \E e \in Ops : Possible(e) /\ \E o \in Outs(m, e) : Assert(StepOK(e, o), <<"not as it should be", e, o>>) /\ Edge(e, o) /\ m' = o.m
Spec == Init /\ [][Next]_m
Inv == GemInv(m)
=============================================================================
