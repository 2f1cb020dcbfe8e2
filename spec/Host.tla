-------------------------------- MODULE Host --------------------------------
(* The host's calls: the request each one sends, and what it returns for a reply.
   A call e has fn and, as it needs them: ks identifiers, k one, es entries
   [k, ids], ups constants [k, val], ps parameters [k, val], ids alarm numbers, set,
   body, t. Results are node sequences like bodies: the values asked for, a list
   of entries, a code; of a program its text and its code.                    *)
EXTENDS Gem
IdN(k) == LET v == SubSeq(k, 3, Len(k)) IN IF SubSeq(k, 1, 1) = "S" THEN NA(v) ELSE Nd("U8", 1, <<v>>)
Each(q, f(_)) == <<NL(Len(q))>> \o Concat([i \in 1..Len(q) |-> f(q[i])])
(* stream and function of the request *)
SF(fn) == CASE fn = "sv" -> <<1, 3>> [] fn = "svInfo" -> <<1, 11>> [] fn = "ec" -> <<2, 13>> [] fn = "ecInfo" -> <<2, 29>>
            [] fn = "setEc" -> <<2, 15>> [] fn = "defRep" -> <<2, 33>> [] fn = "linkRep" -> <<2, 35>> [] fn = "enRep" -> <<2, 37>>
            [] fn = "evRep" -> <<6, 15>> [] fn = "cmd" -> <<2, 41>> [] fn = "putPP" -> <<7, 3>> [] fn = "getPP" -> <<7, 5>>
            [] fn = "time" -> <<2, 17>> [] fn = "setTime" -> <<2, 31>> [] fn = "enAl" -> <<5, 3>> [] fn = "alList" -> <<5, 5>> [] fn = "alEn" -> <<5, 7>>
(* its body with identifiers made by id, numbers by num *)
Body(e, id(_), num(_)) ==
  LET one(k) == <<id(k)>>
      entry(x) == <<NL(2), id(x.k)>> \o Each(x.ids, one)
      value(x) == <<NL(2), id(x.k)>> \o ItemOrEmpty(x.val) IN
  CASE e.fn \in {"sv", "svInfo", "ec", "ecInfo"} -> Each(e.ks, one)
    [] e.fn = "setEc" -> Each(e.ups, value)
    [] e.fn \in {"defRep", "linkRep"} -> <<NL(2), num("0")>> \o Each(e.es, entry)
    [] e.fn = "enRep" -> <<NL(2), Nd("BOOL", 1, <<IF e.set THEN "1" ELSE "0">>)>> \o Each(e.ks, one)
    [] e.fn \in {"evRep", "getPP"} -> <<id(e.k)>>
    [] e.fn = "cmd" -> <<NL(2), id(e.k)>> \o Each(e.ps, value)
    [] e.fn = "putPP" -> <<NL(2), id(e.k), Nd("TEXT", 0, <<e.body>>)>>
    [] e.fn \in {"time", "alList", "alEn"} -> <<NL(0)>>
    [] e.fn = "setTime" -> <<NA(e.t)>>
    [] e.fn = "enAl" -> <<NL(2), NB(IF e.set THEN "128" ELSE "0")>> \o Each(e.ids, LAMBDA a : <<num(a)>>)
ReqPat(e) == Body(e, PId, LAMBDA v : IF e.fn = "enAl" THEN PNum(v) ELSE PUnknown)
(* the request as the equipment takes it *)
ReqOf(e) == LET ns == Body(e, IdN, LAMBDA v : Nd("U4", 1, <<v>>)) IN
            [op |-> "req", s |-> SF(e.fn)[1], f |-> SF(e.fn)[2], w |-> 1, s1f1 |-> "ok",
             nodes |-> [i \in DOMAIN ns |-> IF ns[i].t = "TEXT" THEN NA(ns[i].v[1]) ELSE ns[i]]]
(* Calls that are decided without a request: their result, or "err" *)
Local(e) == IF e.fn \in {"sv", "ec"} /\ e.ks = <<>> THEN {[err |-> "err", res |-> <<>>]}
            ELSE IF e.fn = "setEc" /\ e.ups = <<>> THEN {[err |-> "none", res |-> <<NB("0")>>]}
            ELSE IF e.fn = "setEc" /\ \E i \in DOMAIN e.ups : e.ups[i].val = <<>> THEN {[err |-> "err", res |-> <<>>]}
            ELSE IF e.fn = "setTime" /\ Len(e.t) < 14 THEN {[err |-> "err", res |-> <<>>]} ELSE {}

(* ----- the result for a reply body ns: "err", or a pattern; malformed replies leave it open ----- *)
Err == [k |-> "err"]
Open == [k |-> "any"]
Is(p) == [k |-> "is", p |-> p]
ByteAt(ns, i) == i <= Len(ns) /\ ns[i].t = "B" /\ ns[i].n = 1
TextAt(ns, i) == ns[i].t = "A"
NumAt(ns, i) == ns[i].t \in UFmts \cup IFmts /\ ns[i].n = 1 /\ SubSeq(ns[i].v[1], 1, 1) # "-" /\ Len(ns[i].v[1]) <= 18
All(ns, i, ok(_)) == \A c \in Range(Kids(ns, i)) : ok(c)
ListOf(ns, i, n) == IsList(ns, i) /\ ns[i].n = n
Ack(ns) == IF ns # <<>> /\ Len(ns) = 1 /\ ByteAt(ns, 1) THEN Is(<<ns[1]>>) ELSE IF ns # <<>> /\ ns[1].n > 0 /\ ns[1].t \in {"L", "B"} THEN Open ELSE Err
AlcdOf(v) == LET x == NumOf(v) IN (IF x >= 128 THEN 128 ELSE 0) + (IF x % 128 >= 64 THEN 64 ELSE 0)
Report(ns) ==
  LET ks == Kids(ns, 1)
      rep(c) == ListOf(ns, c, 2) /\ IdOK(ns[Kid(ns, c, 1)]) /\ IsList(ns, Kid(ns, c, 2)) IN
  IF ~(ns # <<>> /\ ListOf(ns, 1, 3) /\ NumAt(ns, 2) /\ IdOK(ns[ks[2]]) /\ IsList(ns, ks[3]) /\ All(ns, ks[3], rep)) THEN Open
  ELSE Is(<<NL(3), PNum(ns[2].v[1]), PId(Key(ns[ks[2]])), ns[ks[3]]>>
          \o Concat([j \in 1..ns[ks[3]].n |-> LET c == Kid(ns, ks[3], j) IN <<NL(2), PId(Key(ns[Kid(ns, c, 1)]))>> \o Sub(ns, Kid(ns, c, 2))]))
(* entries whose parts, given by their kind, are returned: "I" identifier, "A" text, "*" anything *)
Rows(ns, parts) ==
  LET n == Len(parts)
      ok(c) == ListOf(ns, c, n) /\ \A j \in 1..n : LET x == ns[Kid(ns, c, j)] IN (parts[j] = "I" => IdOK(x)) /\ (parts[j] = "A" => x.t = "A")
      part(c, j) == LET i == Kid(ns, c, j) IN IF parts[j] = "I" THEN <<PId(Key(ns[i]))>> ELSE Sub(ns, i) IN
  IF ns = <<>> \/ ~IsList(ns, 1) THEN Err ELSE IF ~All(ns, 1, ok) THEN Open
  ELSE Is(<<ns[1]>> \o Concat([r \in 1..ns[1].n |-> <<NL(n)>> \o Concat([j \in 1..n |-> part(Kid(ns, 1, r), j)])]))
ResultOf(e, ns) ==
  CASE e.fn \in {"sv", "ec"} -> IF ns = <<>> \/ ~ListOf(ns, 1, Len(e.ks)) THEN Err ELSE Is(ns)
    [] e.fn = "svInfo" -> Rows(ns, <<"I", "A", "A">>)
    [] e.fn = "ecInfo" -> Rows(ns, <<"I", "A", "*", "*", "*", "A">>)
    [] e.fn = "evRep" -> Report(ns)
    [] e.fn = "cmd" -> LET ks == Kids(ns, 1)
                           ok(c) == ListOf(ns, c, 2) /\ IdOK(ns[Kid(ns, c, 1)]) /\ LET a == Kid(ns, c, 2) IN ByteAt(ns, a) /\ NumOf(ns[a].v[1]) \in 1..63 IN
                       IF ns = <<>> \/ ns[1].t # "L" THEN Err
                       ELSE IF ~(ListOf(ns, 1, 2) /\ ByteAt(ns, 2) /\ NumOf(ns[2].v[1]) <= 6 /\ IsList(ns, 3) /\ All(ns, 3, ok)) THEN Open
                       ELSE Is(<<NL(2), ns[2], ns[3]>> \o Concat([j \in 1..ns[3].n |-> LET c == Kid(ns, 3, j) IN <<NL(2), PId(Key(ns[c + 1])), ns[c + 2]>>]))
    [] e.fn \in {"alList", "alEn"} ->
         LET ok(c) == ListOf(ns, c, 3) /\ ByteAt(ns, Kid(ns, c, 1)) /\ NumAt(ns, Kid(ns, c, 2)) /\ TextAt(ns, Kid(ns, c, 3)) IN
         IF ns = <<>> \/ ~IsList(ns, 1) THEN Err ELSE IF ~All(ns, 1, ok) THEN Open
         ELSE Is(<<ns[1]>> \o Concat([j \in 1..ns[1].n |-> LET c == Kid(ns, 1, j) IN <<NL(3), NB(ToString(AlcdOf(ns[c + 1].v[1]))), PNum(ns[c + 2].v[1]), ns[c + 3]>>]))
    [] e.fn = "getPP" -> IF ns = <<>> \/ ns[1].t # "L" \/ ns[1].n < 2 THEN Err
                         ELSE LET ks == Kids(ns, 1) b == ns[ks[2]] IN
                              IF b.t # "A" \/ ns[ks[1]].t = "L" THEN Open
                              ELSE IF ns[1].n = 2 THEN Is(<<Nd("TEXT", 0, b.v), NB("0")>>)
                              ELSE IF ns[1].n = 3 /\ ByteAt(ns, ks[3]) THEN Is(<<Nd("TEXT", 0, b.v), ns[ks[3]]>>) ELSE Open
    [] e.fn = "time" -> IF Len(ns) = 1 /\ ns[1].t = "A" THEN Is(ns) ELSE Err
    [] OTHER -> Ack(ns)
(* the result r = [err, res, ids] of call e *)
IdsOK(e, r) == e.fn \in {"sv", "ec"} => r.ids = e.ks
Got(e, x, r) == CASE x.k = "err" -> r.err = "err" [] x.k = "any" -> r.err \in {"none", "err"}
                  [] x.k = "is" -> r.err = "none" /\ Matches(x.p, r.res) /\ IdsOK(e, r)
(* the pattern of the equipment's reply as the host hands it over *)
Handed(e, p) == IF e.fn = "getPP" THEN <<p[3], p[4]>> ELSE p
=============================================================================
