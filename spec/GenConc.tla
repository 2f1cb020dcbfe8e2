------------------------------ MODULE GenConc ------------------------------
(* Random concurrent programs for "vdrv conc": phases of threads of operations
   on one object. A pause (ms) can come before an operation.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES h, n
Mix == IOEnv.MIX
Big == atoi(IOEnv.DEPTH)           \* operations per history, about
R(x, S) == RandomElement(S)
Chance(x, p) == R(x, 1..100) <= p
Pick(x, q) == q[R(x, 1..Len(q))]
Pause(x) == IF Chance(x, 70) THEN 0 ELSE Pick(x, <<1, 1, 2, 5, 20>>)

(* ---- queue ---- *)
DqOp(i, j) == IF Chance(j, 45) THEN [f |-> "put", v |-> 100 * i + j, pause |-> IF Chance(j, 12) THEN R(j, {300, 900, 990, 1000, 1010, 1500}) ELSE Pause(j)]
              ELSE [f |-> "get", timeout |-> Pick(j, <<0, 0, 1, 1, 1, 2>>), pause |-> IF Chance(j, 10) THEN R(j, {300, 900, 1000}) ELSE Pause(j)]
(* all gets wait first, then the items come at once *)
DqWait(i, j) == IF i % 2 = 0 THEN [f |-> "put", v |-> 100 * i + j, pause |-> IF j = 1 THEN R(j, {50, 400, 995, 1000, 1005}) ELSE 0]
                ELSE [f |-> "get", timeout |-> Pick(j, <<1, 2>>), pause |-> 0]
DqPhase == \E w \in {Chance(n, 40)}, k \in {R(n, 1..6)} : \E m \in {R(n, 1..(Big \div k))} :
           \E t \in {[i \in 1..k |-> [j \in 1..R(i, 1..m) |-> IF w THEN DqWait(i, j) ELSE DqOp(i, j)]]} : h' = Append(h, [op |-> "phase", threads |-> t])

(* bursts: puts and gets start at the same moment; n differs between phases *)
DqBurst(i, j, w) == IF i <= w THEN [f |-> "put", v |-> 10000 * n + 100 * i + j, pause |-> 0] ELSE [f |-> "get", timeout |-> 1, pause |-> 0]
DqBursts == \E k \in {R(n, 2..6)} : \E w \in {Pick(n, <<k \div 2, k \div 2, k \div 2, (k + 1) \div 2>>)}, d \in {R(n, {1, 1, 2})} :
            \E t \in {[i \in 1..k |-> [j \in 1..d |-> DqBurst(i, j, w)]]} : h' = Append(h, [op |-> "phase", threads |-> t])

(* ---- events ---- *)
Ev(x) == [f |-> Pick(x, <<"add", "add", "add", "remove", "remove", "fire", "fire", "len">>), c |-> R(x, 1..5), pause |-> Pause(x)]
EvIn(x) == [f |-> Pick(x, <<"add", "remove", "remove", "fire", "len">>), c |-> R(x, 1..5), pause |-> 0]
EvNew == [op |-> "new", obj |-> "events", cbs |-> [c \in 1..5 |-> [j \in 1..Pick(c, <<0, 0, 1, 2, 3>>) |-> EvIn(j)]]]
EvPhase == \E k \in {R(n, {1, 1, 2, 3, 4})} :
           \E t \in {[i \in 1..k |-> [j \in 1..R(i, 1..(Big \div k)) |-> Ev(j)]]} : h' = Append(h, [op |-> "phase", threads |-> t])

(* ---- the control state machine ---- *)
CtNew == [op |-> "new", obj |-> "control", init |-> Pick(n, <<"EO", "HO", "AO", "ON">>), mode |-> Pick(n + 1, <<"LOCAL", "REMOTE">>)]
CtPhase == \E k \in {R(n, {1, 1, 2, 3, 4})} :
           \E t \in {[i \in 1..k |-> [j \in 1..R(i, 1..(Big \div k)) |-> [f |-> Pick(j, <<"swOn", "swOn", "success", "success", "remOn", "remOff", "swOff",
                "swLocal", "swRemote", "failEO", "failHO", "state", "state", "mode", "online", "start">>), pause |-> 0]]]} : h' = Append(h, [op |-> "phase", threads |-> t])

(* ---- sessions, channels, the manager and the server; sessions 1..4, further ones made or dialled per phase ---- *)
LkSize(x) == Pick(x, <<0, 0, 1, 2, 3>>)
LkSes(i) == [how |-> Pick(i, <<"plain", "man", "man", "id">>), size |-> LkSize(i)]
LkNew == \E q \in {[i \in 1..4 |-> LkSes(i)]} : h' = <<[op |-> "new", obj |-> "link", ses |-> q, srv |-> ""]>>
SvNew == h' = <<[op |-> "new", obj |-> "link", ses |-> <<>>, srv |-> Pick(n, <<"serve", "serve", "queue", "single">>)]>>
Slot(x) == IF Mix = "server" THEN R(x, 1..(8 * n)) ELSE IF Chance(x, 70) THEN R(x, 1..4) ELSE R(x, 1..(4 + 4 * (n - 1)))
Async(i) == Mix # "server" /\ i <= 4 /\ h[1].ses[i].size > 0
Tok(i, j) == 1000 * n + 100 * i + 10 * (j % 10) + (IF j >= 10 THEN 5 ELSE 0)
LkRec(i, j, k, x) ==
  LET pa == Pause(j) key == R(j, 1..3) ch == R(j, 1..2) IN
  IF k <= 14 THEN [f |-> "close", i |-> x, pause |-> pa]
  ELSE IF k <= 30 THEN [f |-> "send", i |-> x, v |-> Tok(i, j) + (IF Chance(j, 8) THEN 7 ELSE 0), pause |-> 0]
  ELSE IF k <= 36 THEN (IF Mix = "server" THEN [f |-> "isclosed", i |-> x, pause |-> pa] ELSE [f |-> "recv", i |-> x, o |-> Pick(j, <<"ok", "ok", "err">>), pause |-> pa])
  ELSE IF k <= 48 THEN [f |-> "addcb", i |-> x, h |-> Pick(j, <<"h1", "h2">>), k |-> R(j, 1..2), c |-> Tok(i, j), pause |-> pa]
  ELSE IF k <= 56 THEN [f |-> "rmcb", i |-> x, h |-> Pick(j, <<"h1", "h2">>), k |-> R(j, 1..2), pause |-> pa]
  ELSE IF k <= 59 THEN [f |-> "isclosed", i |-> x, pause |-> pa]
  ELSE IF k <= 63 THEN (IF Async(x) THEN [f |-> "gate", i |-> x, o |-> Pick(j, <<"shut", "open">>), pause |-> pa] ELSE [f |-> "isclosed", i |-> x, pause |-> pa])
  ELSE IF k <= 76 THEN [f |-> "chput", i |-> x, ch |-> ch, k |-> key, pause |-> pa]
  ELSE IF k <= 81 THEN [f |-> "chget", ch |-> ch, k |-> key, pause |-> pa]
  ELSE IF k <= 86 THEN [f |-> "chrm", ch |-> ch, k |-> key, pause |-> pa]
  ELSE IF k <= 88 THEN [f |-> "chlen", ch |-> ch, pause |-> pa]
  ELSE IF k <= 91 THEN [f |-> Pick(j, <<"chfetch", "chfar">>), ch |-> ch, o |-> Pick(j, <<"", "", "close">>), pause |-> pa]
  ELSE IF k <= 92 THEN [f |-> "chclose", ch |-> ch, pause |-> pa]
  ELSE IF k <= 98 THEN [f |-> "mget", i |-> x, pause |-> pa]
  ELSE [f |-> "isclosed", i |-> x, pause |-> pa]
(* thread i of k; the last one, or each one in turn, makes sessions; disposal comes in late phases *)
LkThread(i, m) == [j \in 1..R(i, 1..m) |->
  IF j = 1 /\ i <= 4 /\ Chance(i, 60) THEN [f |-> "mk", i |-> 4 + 4 * (n - 1) + i, size |-> LkSize(j), pause |-> Pause(i)]
  ELSE IF n >= 2 /\ Chance(j, 3) THEN [f |-> "dispose", pause |-> Pause(j)]
  ELSE LkRec(i, j, R(j, 1..100), Slot(j))]
SvThread(i, m) == [j \in 1..R(i, 1..m) |->
  IF i <= 4 /\ j <= 2 /\ Chance(j, 80) THEN [f |-> "dial", i |-> 8 * (n - 1) + 2 * (i - 1) + j, o |-> IF i = 1 /\ j = 1 /\ Chance(j, 20) THEN "temp" ELSE Pick(j, <<"ok", "ok", "slow", "bad">>), pause |-> Pause(j)]
  ELSE IF n >= 2 /\ Chance(j, 6) THEN [f |-> "dispose", pause |-> Pause(j)]
  ELSE LkRec(i, j, R(j, 1..100), Slot(j))]
(* one session used by all *)
LkHot(i, m, s) == [j \in 1..R(i, 1..m) |-> LET k == R(j, 1..100) IN
  IF k <= 55 THEN [f |-> "send", i |-> s, v |-> Tok(i, j) + (IF Chance(j, 4) THEN 7 ELSE 0), pause |-> 0]
  ELSE IF k <= 85 THEN [f |-> "recv", i |-> s, o |-> Pick(j, <<"ok", "ok", "ok", "err">>), pause |-> 0]
  ELSE IF k <= 92 THEN [f |-> "close", i |-> s, pause |-> Pick(j, <<0, 0, 1>>)]
  ELSE [f |-> "addcb", i |-> s, h |-> "h1", k |-> R(j, 1..2), c |-> Tok(i, j), pause |-> 0]]
LkHots == \E k \in {R(n, 2..5)} : \E s \in {R(n, 1..4)} : \E m \in {R(n, 1..(Big \div k))} :
          \E t \in {[i \in 1..k |-> LkHot(i, m, s)]} : h' = Append(h, [op |-> "phase", threads |-> t])
LkPhase == \E k \in {R(n, {1, 1, 2, 3, 4})} : \E m \in {R(n, 1..(Big \div k))} :
           \E t \in {[i \in 1..k |-> IF Mix = "server" THEN SvThread(i, m) ELSE LkThread(i, m)]} : h' = Append(h, [op |-> "phase", threads |-> t])

New == IF Mix = "events" THEN EvNew ELSE IF Mix = "control" THEN CtNew ELSE [op |-> "new", obj |-> IF Mix = "bursts" THEN "deque" ELSE Mix]
Phases == IF Mix = "deque" THEN 1 ELSE IF Mix = "bursts" THEN 8 ELSE 4
Init == h = <<>> /\ n = 0
Next == /\ n < Phases + 1 /\ n' = n + 1
        /\ IF n = 0 /\ Mix = "link" THEN LkNew ELSE IF n = 0 /\ Mix = "server" THEN SvNew ELSE IF n = 0 THEN \E e \in {New} : h' = <<e>>
           ELSE IF Mix = "deque" THEN DqPhase ELSE IF Mix = "control" THEN CtPhase ELSE IF Mix = "bursts" THEN DqBursts ELSE IF Mix = "link" /\ Chance(n, 30) THEN LkHots ELSE IF Mix \in {"link", "server"} THEN LkPhase ELSE EvPhase
        /\ IF n = Phases THEN PrintT("SCN " \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_<<h, n>>
=============================================================================
