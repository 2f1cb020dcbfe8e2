------------------------------ MODULE GenCodec ------------------------------
(* Random behaviours of Codec as scenarios for "vdrv codec".                 *)
EXTENDS Codec, TLC, Json, IOUtils
VARIABLES m, hist, n
Depth == atoi(IOEnv.DEPTH)
R(x, S) == RandomElement(S)
Chance(x, p) == R(x, 1..100) <= p
Pick(x, s) == s[R(x, 1..Len(s))]
Sizes == <<0, 1, 2, 7, 100, 254, 255, 256, 257, 1000, 4091, 4092, 4093, 5120, 65534, 65535, 65536, 65537, 100000, 1048576, 1048577, 1100000>>
Lim(x) == IF Chance(x, 12) THEN [k |-> "huge", v |-> 0] ELSE [k |-> "n", v |-> Pick(x, <<0, 1, 10, 254, 255, 256, 300, 1000, 5000, 65534, 65535, 65536, 70000, 200000, 1048577, 2000000, 2000000>>)]
Buf(x) == Pick(x, <<0, 1, 16, 17, 100, 4096, 5120>>)
NewC == LET base == Pick(n, <<"blob", "blob", "json", "json", "byte">>) IN
        \E b \in {base} : \E k \in {IF b = "json" /\ Chance(n, 35) THEN 0 ELSE Pick(n, <<1, 2, 4, 8>>)} :
        \E e \in {[op |-> "new", base |-> b, n |-> k, ord |-> Pick(n, <<"be", "le">>), maxR |-> Lim(1), maxS |-> Lim(2),
                   outR |-> Buf(1), outW |-> Buf(2), inR |-> Buf(3), inW |-> Buf(4), stack |-> Pick(n, <<"plain", "out", "out", "in", "both">>), cut |-> Pick(n, <<"one", "few", "all", "eof">>)]} :
        m' = New(e) /\ hist' = <<e>>
Near(x, lim) == IF lim.k = "n" /\ Chance(x, 45) THEN Max(0, lim.v + Pick(x, <<-1, 0, 1, 2>>))
                ELSE IF Chance(x, 20) THEN (Field(m.c) % 70000) + Pick(x, <<-1, 0, 1>>) ELSE Pick(x, Sizes)
(* Bytes packets have 1 to 4092 bytes; documents some hundred, and keep a distance to the limits *)
Fit(s) == IF m.c.base = "byte" THEN Max(1, Min(s, 4092))
          ELSE IF m.c.base = "json" THEN Max(400, s) ELSE s
Sure(s) == m.c.base # "json" \/ (\A l \in {m.c.maxS, m.c.maxR} : Over(m.c, l, s + 25) = Over(m.c, l, s - 25))
Sz(x) == Fit(Near(x, IF Chance(x, 50) THEN m.c.maxS ELSE m.c.maxR))
Skip == UNCHANGED <<m, hist>>
DoSend == \E d \in {R(n, Open(m))}, s0 \in {Sz(n)} : \E s \in {IF Sure(s0) THEN s0 ELSE s0 + 100} :
          IF ~Sure(s) THEN Skip ELSE
          /\ hist' = Append(hist, [op |-> "send", d |-> d, size |-> s, base |-> m.c.base, id |-> n, kind |-> Pick(n, <<"reg", "ptr", "named", "unreg">>)])
          /\ m' = IF SendRes(m.c, s) = {"ok"} THEN Put(m, d, [k |-> "pkt", size |-> s, h |-> ""]) ELSE m
Live == {d \in 1..2 : m.wire[d] # <<>> /\ ~m.dead[d]}
DoRecv == \E d \in {R(n, Live)} : m' = Got(m, d, RandomElement(RecvRes(m.c, m.wire[d][1]) \ (IF m.wire[d][1].k = "doc" /\ m.wire[d][1].what \in {"nobody", "null"} THEN {"err"} ELSE {}))) /\ hist' = Append(hist, [op |-> "recv", d |-> d])
Raw(x) == Pick(x, <<[k |-> "eof"],
                    [k |-> "raw", ann |-> [k |-> "n", v |-> Near(x, m.c.maxR)]],
                    [k |-> "raw", ann |-> [k |-> Pick(x, <<"neg", "big">>), v |-> 0]]>>)
Doc(x) == [k |-> "doc", what |-> Pick(x, <<"unknown", "nohead", "more", "nobody", "null", "notjson", "array", "badbody", "trunc">>), h |-> ""]
(* the announced packet never arrives in full *)
DoRaw == \E d \in {R(n, Open(m))} : \E x \in {IF m.c.base = "json" /\ (m.c.n = 0 \/ Chance(n, 60)) THEN Doc(n) ELSE Raw(n)} :
         IF \/ x.k = "raw" /\ (m.c.n = 0
                              \/ (x.ann.k \in {"neg", "big"} /\ m.c.n # 8)
                              \/ (x.ann.k = "n" /\ (x.ann.v <= 0 \/ x.ann.v > Field(m.c))))
            \/ (x.k = "doc" /\ Over(m.c, m.c.maxR, 300))
         THEN Skip ELSE m' = Put(m, d, x) /\ hist' = Append(hist, [op |-> "raw", d |-> d, x |-> x])
DoFlow == \E s \in {Fit(Pick(n, <<1, 100, 1000, 4000>>))} :
          IF Over(m.c, m.c.maxS, s + 50) \/ Over(m.c, m.c.maxR, s + 50) THEN Skip
          ELSE hist' = Append(hist, [op |-> "flow", size |-> s, base |-> m.c.base, k |-> R(n, 1..20)]) /\ m' = m
Step == \E p \in {R(n, 1..100)} :
        IF Live # {} /\ p <= 45 THEN DoRecv
        ELSE IF Open(m) = {} THEN Skip
        ELSE IF p <= 50 THEN DoRaw
        ELSE IF p <= 60 /\ m.wire = <<<<>>, <<>>>> /\ m.dead = <<FALSE, FALSE>> THEN DoFlow
        ELSE DoSend
Init == m = <<>> /\ hist = <<>> /\ n = 0
Next == /\ n <= Depth /\ n' = n + 1
        /\ IF n = 0 THEN NewC ELSE Step
        /\ IF n = Depth THEN PrintT("SCN " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_<<m, hist, n>>
=============================================================================
