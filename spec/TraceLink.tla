----------------------------- MODULE TraceLink -----------------------------
(* Sessions, channels, a session manager and a server, on codecs that record
   what they are asked to do.
   s.ses[i]: session i: its send queue (size 0: none; q, cur: what the codec is
   to be given next), whether it is closed (cl) or must become closed (doom), the
   callbacks registered, those that must run (must) or may (late), how often the
   codec was closed (cc), sends let through to the codec (adm) and finished (fin),
   what receives got (rcv, rfail), and its place in the manager (man: no, in, gone
   once closed, out). s.ch: the two channels, functions from keys to sessions.
   s.con: the connections of the server.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES l, s, open, done
Ses(how, size) == [size |-> size, cl |-> FALSE, doom |-> FALSE, cbs |-> <<>>, must |-> {}, late |-> {}, cc |-> 0, q |-> <<>>, cur |-> <<>>,
                   adm |-> {}, fin |-> {}, rcv |-> {}, rfail |-> 0, gate |-> FALSE, man |-> IF how = "man" THEN "in" ELSE "no"]
Start(e) == [ses |-> [i \in 1..Len(e.ses) |-> Ses(e.ses[i].how, e.ses[i].size)], ch |-> <<<<>>, <<>>>>, con |-> <<>>, srv |-> e.srv, served |-> FALSE, disp |-> FALSE]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Closed(s0, i) == [s0 EXCEPT !.ses[i].cl = TRUE, !.ses[i].doom = FALSE, !.ses[i].must = {x.c : x \in {s0.ses[i].cbs[j] : j \in DOMAIN s0.ses[i].cbs}}, !.ses[i].cbs = <<>>,
                            !.ses[i].man = IF @ = "in" THEN "gone" ELSE @]
RECURSIVE CloseAll(_, _)
CloseAll(s0, I) == IF I = {} THEN s0 ELSE LET i == CHOOSE x \in I : TRUE IN CloseAll(Closed(s0, i), I \ {i})
(* A session enters the manager, which is closed to it once disposed *)
Made(s0, i, size) == IF s0.disp THEN [s0 EXCEPT !.ses = (i :> [Ses("man", size) EXCEPT !.cl = TRUE, !.man = "out"]) @@ @]
                     ELSE [s0 EXCEPT !.ses = (i :> Ses("man", size)) @@ @]
First(q, P(_)) == IF \E i \in DOMAIN q : P(q[i]) THEN CHOOSE i \in DOMAIN q : P(q[i]) /\ \A j \in 1..(i - 1) : ~P(q[j]) ELSE 0
Without(q, i) == IF i = 0 THEN q ELSE SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Live(s0, c) == {k \in DOMAIN s0.ch[c] : ~s0.ses[s0.ch[c][k]].cl}
(* A closed session leaves its channels at some time *)
Count(res, i) == Cardinality({x \in DOMAIN res : res[x] = i})
Vals(s0, c, res) == LET m == s0.ch[c] IN
                    /\ \A j \in DOMAIN res : Count(res, res[j]) <= Cardinality({k \in DOMAIN m : m[k] = res[j]})
                    /\ \A k \in Live(s0, c) : Count(res, m[k]) = Cardinality({x \in DOMAIN m : m[x] = m[k]})
RECURSIVE DoomAll(_, _)
DoomAll(s0, q) == IF q = <<>> THEN s0 ELSE DoomAll(IF s0.ses[Head(q)].cl THEN s0 ELSE [s0 EXCEPT !.ses[Head(q)].doom = TRUE], Tail(q))
If(b, x) == IF b THEN {x} ELSE {}
Apply(s0, c, e) ==
  LET z == s0.ses[c.i] IN
  IF c.f \notin {"mk", "dial"} /\ "i" \in DOMAIN c /\ c.i \notin DOMAIN s0.ses THEN {}     \* not made yet
  ELSE CASE c.f = "mk" -> {Made(s0, c.i, c.size)}
    [] c.f = "close" -> If((c.res = "ok") = ~z.cl, IF z.cl THEN s0 ELSE Closed(s0, c.i))
    [] c.f = "send" -> CASE c.res = "closed" -> If(z.cl, s0)
                         [] c.res = "blocked" -> If(z.size > 0 /\ ~z.cl /\ Len(z.q) = z.size, [s0 EXCEPT !.ses[c.i].doom = TRUE])
                         [] c.res = "ok" /\ z.size > 0 -> IF z.cl THEN {} ELSE IF Len(z.q) < z.size THEN {[s0 EXCEPT !.ses[c.i].q = Append(@, c.v)]}
                                                             ELSE If(z.cur = <<>>, [s0 EXCEPT !.ses[c.i].cur = <<Head(z.q)>>, !.ses[c.i].q = Append(Tail(@), c.v)])
                         [] z.size = 0 -> If(~z.cl, [s0 EXCEPT !.ses[c.i].adm = @ \cup {c.v}])
                         [] OTHER -> {}
    [] c.f = "recv" -> IF c.res = "ok" THEN If(c.v \in z.rcv, [s0 EXCEPT !.ses[c.i].rcv = @ \ {c.v}])
                       ELSE If(z.rfail > 0, [s0 EXCEPT !.ses[c.i].rfail = @ - 1])
    [] c.f = "addcb" -> IF z.cl THEN {[s0 EXCEPT !.ses[c.i].late = @ \cup {c.c}]} ELSE {[s0 EXCEPT !.ses[c.i].cbs = Append(@, [h |-> c.h, k |-> c.k, c |-> c.c])]}
    [] c.f = "rmcb" -> {[s0 EXCEPT !.ses[c.i].cbs = Without(@, First(@, LAMBDA x : x.h = c.h /\ x.k = c.k))]}
    [] c.f = "isclosed" -> If(c.res = z.cl, s0)
    [] c.f = "gate" -> {[s0 EXCEPT !.ses[c.i].gate = (c.o = "shut")]}
    [] c.f = "mget" -> If((c.res = c.i /\ z.man \in {"in", "gone"}) \/ (c.res = 0 /\ z.man # "in"), IF c.res = 0 /\ z.man = "gone" THEN [s0 EXCEPT !.ses[c.i].man = "out"] ELSE s0)
    [] c.f = "chput" -> LET m == Drop(s0.ch[c.ch], c.k) IN
                        (IF z.cl THEN {[s0 EXCEPT !.ch[c.ch] = m]} ELSE {}) \cup {[s0 EXCEPT !.ch[c.ch] = (c.k :> c.i) @@ m]}
    [] c.f = "chget" -> LET m == s0.ch[c.ch] IN
                        IF c.res = 0 THEN If(c.k \notin DOMAIN m \/ (c.k \in DOMAIN m /\ s0.ses[m[c.k]].cl), [s0 EXCEPT !.ch[c.ch] = Drop(@, c.k)])
                        ELSE If(c.k \in DOMAIN m /\ m[c.k] = c.res, s0)
    [] c.f = "chrm" -> If((c.res => c.k \in DOMAIN s0.ch[c.ch]) /\ (~c.res => c.k \notin Live(s0, c.ch)), [s0 EXCEPT !.ch[c.ch] = Drop(@, c.k)])
    [] c.f = "chlen" -> If(c.res <= Cardinality(DOMAIN s0.ch[c.ch]) /\ c.res >= Cardinality(Live(s0, c.ch)), s0)
    [] c.f \in {"chfetch", "chfar"} ->
         If(Vals(s0, c.ch, c.res), LET t == IF c.o = "close" THEN DoomAll(s0, c.res) ELSE s0 IN IF c.f = "chfar" THEN [t EXCEPT !.ch[c.ch] = <<>>] ELSE t)
    [] c.f = "chclose" -> {[s0 EXCEPT !.ch[c.ch] = <<>>]}
    [] c.f = "dispose" -> {[CloseAll(s0, {i \in DOMAIN s0.ses : s0.ses[i].man = "in"}) EXCEPT !.disp = TRUE]}
    [] c.f = "dial" -> {IF c.o = "temp" THEN s0 ELSE [s0 EXCEPT !.con = (c.i :> [st |-> "wait"]) @@ @]}
Size(s0) == IF s0.srv = "queue" THEN 2 ELSE 0
Disposing(ops) == \E x \in DOMAIN ops : ops[x].f = "dispose"
(* The sessions whose closing matters for line e *)
Rel(s0, e, ops) == IF "i" \in DOMAIN e THEN {e.i} ELSE IF e.op # "ret" THEN {}
                   ELSE LET c == ops[e.id] IN IF c.f = "chput" THEN {} ELSE IF "i" \in DOMAIN c THEN {c.i} ELSE IF "ch" \in DOMAIN c THEN {s0.ch[c.ch][k] : k \in DOMAIN s0.ch[c.ch]} \cup IF c.f \in {"chfetch", "chfar"} THEN {c.res[x] : x \in DOMAIN c.res} ELSE {} ELSE {}
Inner(s0, e, ops) ==
  {Closed(s0, i) : i \in {j \in Rel(s0, e, ops) \cap DOMAIN s0.ses : ~s0.ses[j].cl /\ (s0.ses[j].doom \/ (Disposing(ops) /\ s0.ses[j].man = "in"))}}
Same(e, s0) ==
  /\ {x.i : x \in {e.ses[j] : j \in DOMAIN e.ses}} = DOMAIN s0.ses
  /\ \A j \in DOMAIN e.ses : LET z == s0.ses[e.ses[j].i] IN
       /\ e.ses[j].closed = z.cl /\ ~z.doom
       /\ e.ses[j].man = IF z.man = "in" THEN e.ses[j].i ELSE 0
       /\ IF z.cl THEN z.cc = 1 /\ z.must = {} ELSE z.gate \/ (z.q = <<>> /\ z.cur = <<>>)
  /\ \A c \in 1..2 : LET m == s0.ch[c] live == Live(s0, c) IN
       /\ {<<x.k, x.i>> : x \in {e.ch[c][j] : j \in DOMAIN e.ch[c]}} = {<<k, m[k]>> : k \in live}
       /\ e.len[c] = Cardinality(live)
  /\ ~e.dup
  /\ LET st(S) == {i \in DOMAIN s0.con : s0.con[i].st \in S} IN
     /\ st({"coded", "bad", "made"}) = {}
     /\ s0.srv = "serve" /\ ~s0.disp => st({"wait"}) = {} 
     /\ s0.srv = "queue" /\ ~s0.disp => st({"wait"}) = {}
     /\ s0.srv = "single" => Cardinality(DOMAIN s0.con \ st({"wait"})) <= 1 /\ (~s0.disp /\ DOMAIN s0.con # {} => DOMAIN s0.con # st({"wait"}))
  /\ s0.srv # "" => e.served = s0.served /\ (s0.disp => s0.served)
Settled(s0) == [s0 EXCEPT !.ses = [i \in DOMAIN @ |-> [@[i] EXCEPT !.man = IF @ = "gone" THEN "out" ELSE @]],
                          !.ch = [c \in 1..2 |-> [k \in {x \in DOMAIN @[c] : ~s0.ses[@[c][x]].cl} |-> @[c][k]]]]
Seen(s0, e, ops) ==
  CASE e.op = "settle" -> LET t == CloseAll(s0, {i \in DOMAIN s0.ses : s0.ses[i].doom}) IN If(Same(e, t), Settled(t))
    [] e.op = "ncodec" -> If(e.i \in DOMAIN s0.con /\ s0.con[e.i].st = "wait", [s0 EXCEPT !.con[e.i].st = IF e.ok THEN "coded" ELSE "bad"])
    [] e.op = "connclose" -> If(s0.con[e.i].st = "bad", [s0 EXCEPT !.con[e.i].st = "over"])
    [] e.op = "handle" -> LET h(t) == [t EXCEPT !.con[e.i].st = "handled"] IN
                           IF s0.con[e.i].st = "made" THEN {h(s0)}
                           ELSE IF s0.con[e.i].st # "coded" THEN {}
                           ELSE LET t == h(Made(s0, e.i, Size(s0))) IN
                                IF ~e.closed THEN If(~s0.disp, t) ELSE If(s0.disp, t) \cup If(~s0.disp /\ Disposing(ops), Closed(t, e.i))
    [] e.op = "served" -> If((s0.srv # "single" => s0.disp \/ Disposing(ops)) /\ (s0.srv # "single" => e.err), [s0 EXCEPT !.served = TRUE])
    [] e.op \in {"cb", "cclose", "csend", "csent", "crecv"} ->
       IF e.i \notin DOMAIN s0.ses                     \* the server is closed before the handler sees the session
       THEN IF e.op = "cclose" /\ e.i \in DOMAIN s0.con /\ s0.con[e.i].st = "coded" /\ (s0.disp \/ Disposing(ops))
            THEN LET t == Made([s0 EXCEPT !.con[e.i].st = "made"], e.i, Size(s0)) IN {[(IF s0.disp THEN t ELSE Closed(t, e.i)) EXCEPT !.ses[e.i].cc = 1]}
            ELSE {} ELSE
       LET z == s0.ses[e.i] IN
       CASE e.op = "cb" -> If(e.c \in z.must \cup z.late, [s0 EXCEPT !.ses[e.i].must = @ \ {e.c}, !.ses[e.i].late = @ \ {e.c}])
         [] e.op = "cclose" -> If(z.cl /\ z.cc = 0, [s0 EXCEPT !.ses[e.i].cc = 1])
         [] e.op = "csend" -> IF e.v \in z.adm \/ z.cur = <<e.v>> THEN {s0}
                              ELSE If(z.cur = <<>> /\ z.q # <<>> /\ z.q[1] = e.v, [s0 EXCEPT !.ses[e.i] = [@ EXCEPT !.cur = <<e.v>>, !.q = Tail(@)]])
         [] e.op = "csent" -> IF e.v \in z.adm THEN {[s0 EXCEPT !.ses[e.i].adm = @ \ {e.v}, !.ses[e.i].fin = @ \cup {<<e.v, e.ok>>}, !.ses[e.i].doom = (@ \/ ~e.ok) /\ ~z.cl]}
                              ELSE {[s0 EXCEPT !.ses[e.i].cur = <<>>, !.ses[e.i].doom = (@ \/ ~e.ok) /\ ~z.cl]}
         [] e.op = "crecv" -> {IF e.ok THEN [s0 EXCEPT !.ses[e.i].rcv = @ \cup {e.v}] ELSE [s0 EXCEPT !.ses[e.i].rfail = @ + 1, !.ses[e.i].doom = ~z.cl]}
    [] OTHER -> {}
Note(s0, e, ops) ==
  IF e.op = "call" THEN {s0} ELSE
  LET c == ops[e.id] IN
  CASE c.f = "send" -> LET z == s0.ses[c.i] IN
                       CASE c.res = "closed" -> {s0}
                         [] c.res = "blocked" -> If(z.cl, s0)
                         [] z.size = 0 -> If(<<c.v, c.res = "ok">> \in z.fin /\ (c.res = "err" => z.cl), s0)
                         [] OTHER -> {s0}
    [] c.f = "recv" /\ c.res = "err" -> If(s0.ses[c.i].cl, s0)
    [] c.f \in {"chfetch", "chfar"} /\ c.o = "close" -> If(\A j \in DOMAIN c.res : s0.ses[c.res[j]].cl, s0)
    [] OTHER -> {s0}
INSTANCE Lin
=============================================================================
