------------------------------ MODULE GenHost ------------------------------
(* Random calls of a host with the answers a scripted equipment gives, and messages
   this equipment sends on its own, for "vdrv host".                         *)
EXTENDS Host, Json, IOUtils
VARIABLES m, hist, held, n
G == INSTANCE GenGem
P == INSTANCE GenPair
vars == <<m, hist, held, n>>
Chance(x, p) == G!Chance(x, p)
Pick(x, s) == G!Pick(x, s)
R(x, S) == RandomElement(S)
Pool == <<"N:1", "S:a", "N:300", "S:", "N:70000", "N:4294967296">>
Id(x) == G!IdNode(x, Pick(x, Pool))
Val(x) == ItemOrEmpty(G!V(R(x, 1..G!Vs)))
Txt(x) == NA(Pick(x, <<"t", "", "some text", G!Repeat("y", 130)>>))
Num(x) == LET v == Pick(x, <<"0", "1", "200", "40000", "3000000000">>) IN Nd(Pick(x, G!Widths(v)), 1, <<v>>)
Byte(x) == NB(Pick(x, <<"0", "0", "0", "1", "4", "64", "127", "128", "192", "255">>))
SomeRows(x, row(_), max) == LET k == G!Few(x, max) IN <<NL(k)>> \o Concat([i \in 1..k |-> row(x + i)])
Vals(x) == SomeRows(x, Val, 3)
Report1(x) == <<NL(3), Num(x), Id(x)>> \o (LET k == R(x, 0..3) IN <<NL(k)>> \o Concat([i \in 1..k |-> <<NL(2), Id(x + i)>> \o Vals(x + i)]))
Good(x, e) ==
  CASE e.fn \in {"sv", "ec"} -> LET k == Len(e.ks) + (IF Chance(x, 6) THEN (IF e.ks = <<>> THEN 1 ELSE R(x, {-1, 1, 2})) ELSE 0) IN <<NL(k)>> \o Concat([i \in 1..k |-> Val(x + i)])
    [] e.fn = "svInfo" -> SomeRows(x, LAMBDA y : <<NL(3), Id(y), Txt(y), Txt(y)>>, 4)
    [] e.fn = "ecInfo" -> SomeRows(x, LAMBDA y : <<NL(6), Id(y), Txt(y)>> \o Val(y) \o Val(y + 1) \o Val(y + 2) \o <<Txt(y)>>, 4)
    [] e.fn = "evRep" -> Report1(x)
    [] e.fn = "cmd" -> <<NL(2), NB(Pick(x, <<"0", "0", "1", "2", "3", "4", "5", "6">>))>> \o SomeRows(x, LAMBDA y : <<NL(2), Id(y), NB(Pick(y, <<"1", "2", "3", "63">>))>>, 3)
    [] e.fn \in {"alList", "alEn"} -> SomeRows(x, LAMBDA y : <<NL(3), Byte(y), Num(y), Txt(y)>>, 4)
    [] e.fn = "getPP" -> IF Chance(x, 50) THEN <<NL(2), Id(x), Txt(x)>> ELSE <<NL(3), Id(x), Txt(x), Byte(x)>>
    [] e.fn = "time" -> <<Txt(x)>>
    [] OTHER -> <<Byte(x)>>
(* an answer with one node changed, or something else altogether *)
Bad(x, ns) == IF Chance(x, 50) \/ ns = <<>> THEN G!Body1(x)
              ELSE LET i == R(x, 1..Len(ns)) IN
                   IF ns[i].t = "L" THEN SubSeq(ns, 1, i - 1) \o <<Txt(x)>> \o SubSeq(ns, End(ns, i), Len(ns))
                   ELSE SubSeq(ns, 1, i - 1) \o Pick(x, <<<<NL(0)>>, <<Nd("U4", 0, <<>>)>>, <<Nd("I2", 1, <<"-4">>)>>, <<Nd("B", 0, <<>>)>>, <<NA("q")>>, <<NL(1), NA("q")>>, <<Nd("B", 2, <<"0", "1">>)>> >>)
                        \o SubSeq(ns, i + 1, Len(ns))
Uns(x) == \E s \in {R(x, {5, 6})} : LET g == IF s = 5 THEN <<NL(3), Byte(x), Num(x), Txt(x)>> ELSE Report1(x) IN
  \E ns \in {IF Chance(x, 8) THEN Bad(x, g) ELSE g} :
  hist' = Append(hist, [op |-> "uns", s |-> s, f |-> IF s = 5 THEN 1 ELSE 11, w |-> IF Chance(x, 75) THEN 1 ELSE 0, nodes |-> ns])
Call(x) == \E e \in {P!Call(x, Pick(x, P!Fns))} :
  \E ns \in {Good(x, e)} : \E bad \in {IF Chance(x, 12) THEN Bad(x, ns) ELSE ns} :
  hist' = Append(hist, e @@ [rp |-> [how |-> IF Chance(x, 86) THEN "ok" ELSE Pick(x, <<"stream", "function", "zero", "zero", "swap", "reject">>), nodes |-> bad]])
None1(x) == \E e \in {P!Call(x, Pick(x, P!Fns))} : hist' = Append(hist, e @@ [rp |-> [how |-> "none", nodes |-> <<>>]])
Init == m = <<>> /\ hist = <<>> /\ held = FALSE /\ n = 0
First == \E e \in {G!NewOp(hist)} : m' = [NewState(e) EXCEPT !.com = TRUE] /\ hist' = <<[op |-> "new"]>>
Next == /\ n' = n + 1 /\ n < G!Depth
        /\ IF n = 0 THEN First
           ELSE m' = m /\ IF Chance(n, 1) THEN None1(n) ELSE IF Chance(n, 3) THEN hist' = Append(hist, [op |-> "ask"]) ELSE IF Chance(n, 25) /\ G!Mix # "cmd" THEN Uns(n) ELSE Call(n)
        /\ held' = FALSE
        /\ IF n + 1 = G!Depth THEN PrintT("SCN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
