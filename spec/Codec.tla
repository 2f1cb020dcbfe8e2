------------------------------- MODULE Codec -------------------------------
(* Packets through stacks of the generic codecs, in both directions of a
   connection. A configuration c: n, the width of the length field (0: none),
   its byte order, the limits of either side ("n" v, or "huge"), and the base:
   "blob" and "byte" packets are bytes, "json" packets are documents.
   m.wire[d]: what is under way in direction d; m.dead[d]: reading it failed.  *)
EXTENDS Integers, Sequences
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
(* The length field limits a packet, too; wider ones exceed what is tried here *)
Field(c) == IF c.n = 1 THEN 255 ELSE IF c.n = 2 THEN 65535 ELSE 2000000000
Over(c, lim, size) == c.n > 0 /\ (size > Field(c) \/ (lim.k = "n" /\ size > lim.v))
Digit(v, i) == IF i > 3 THEN 0 ELSE (v \div (CASE i = 0 -> 1 [] i = 1 -> 256 [] i = 2 -> 65536 [] i = 3 -> 16777216)) % 256
LenField(c, v) == [i \in 1..c.n |-> Digit(v, IF c.ord = "le" THEN i - 1 ELSE c.n - i)]
New(c) == [c |-> c, wire |-> <<<<>>, <<>>>>, dead |-> <<FALSE, FALSE>>]
(* The size of a document is known up to Slack bytes *)
Slack(c) == IF c.base = "json" THEN 20 ELSE 0
SendRes(c, size) == (IF Over(c, c.maxS, size + Slack(c)) THEN {"toolarge"} ELSE {}) \cup (IF Over(c, c.maxS, size - Slack(c)) THEN {} ELSE {"ok"})
Put(m, d, x) == [m EXCEPT !.wire[d] = Append(@, x)]
(* What receiving x may give: a packet, nothing, or an error of its kind *)
RecvRes(c, x) ==
  CASE x.k = "pkt" -> IF Over(c, c.maxR, x.size) THEN {"toolarge"} ELSE {"ok"}
    [] x.k = "eof" -> {"err"}
    [] x.k = "raw" -> IF x.ann.k = "neg" \/ (x.ann.k = "big" /\ c.maxR.k # "huge") \/ (x.ann.k = "n" /\ Over(c, c.maxR, x.ann.v)) THEN {"toolarge"} ELSE {"err"}
    [] x.k = "doc" -> IF x.what \in {"unknown", "nohead", "more"} THEN {"ok"} ELSE IF x.what \in {"nobody", "null"} THEN {"nothing", "err"} ELSE {"err"}
Got(m, d, res) == [m EXCEPT !.wire[d] = Tail(@), !.dead[d] = res \in {"toolarge", "err"}]
(* Nothing can follow what ends the stream or leaves it in pieces *)
Ends(c, x) == x.k \in {"eof", "raw"} \/ RecvRes(c, x) \cap {"ok", "nothing"} = {}
Open(m) == {d \in 1..2 : ~m.dead[d] /\ \A i \in DOMAIN m.wire[d] : ~Ends(m.c, m.wire[d][i])}
=============================================================================
