------------------------------ MODULE MCSecs2 ------------------------------
(* A sender builds a message node by node and encodes it; the channel may
   corrupt the bytes (change one, cut the end, append one, with or without a
   corrected length field); a receiver decodes.                             *)
EXTENDS Secs2, TLC, Json
CONSTANTS MaxNodes, Fmts, EmitScn, Bytes

VARIABLES nodes, stack, hdr, bytes, phase
vars == <<nodes, stack, hdr, bytes, phase>>

Zero8 == <<0,0,0,0,0,0,0,0>>
AllOnes(w) == [i \in 1..8 |-> IF i > 8 - w THEN 255 ELSE 0]
Half(w) == [i \in 1..8 |-> IF i = 9 - w THEN 128 ELSE 0]        \* 2^(8w-1)
HalfM(w) == [i \in 1..8 |-> IF i = 9 - w THEN 127 ELSE IF i > 9 - w THEN 255 ELSE 0]
Elems(f) ==
  CASE f = "BOOL" -> {<<0>>, <<1>>}
    [] f = "A" -> {<<0>>, <<65>>, <<127>>}
    [] f = "B" -> {<<0>>, <<255>>}
    [] Kind[f] = "U" -> {Zero8, [Zero8 EXCEPT ![8] = 1], Half(W[f]), AllOnes(W[f])}
    [] Kind[f] = "I" -> {<<0>> \o Zero8, <<0>> \o HalfM(W[f]), <<1>> \o Half(W[f]), <<1>> \o [Zero8 EXCEPT ![8] = 1]}
    [] f = "F8" -> {<<0, -1074, 0,0,0,0,0,0,0>>, <<1, -1074, 0,0,0,0,0,0,1>>, <<0, -52, 16,0,0,0,0,0,0>>, <<1, 971, 31,255,255,255,255,255,255>>}
    [] f = "F4" -> {<<0, -149, 0,0,0,0,0,0,0>>, <<1, -149, 0,0,0,0,0,0,1>>, <<0, -23, 0,0,0,0,128,0,0>>, <<1, 104, 0,0,0,0,255,255,255>>}
Leaves(f) == {[f |-> f, n |-> 0, v |-> <<>>]} \cup {[f |-> f, n |-> 1, v |-> e] : e \in Elems(f)}
             \cup (IF f \in {"A", "U2", "I4"} THEN {[f |-> f, n |-> 2, v |-> e \o e2] : e \in Elems(f), e2 \in Elems(f)} ELSE {})
NodeSet == UNION {Leaves(f) : f \in Fmts \ {"L"}} \cup {[f |-> "L", n |-> i, v |-> <<>>] : i \in 0..2}

RECURSIVE Missing(_)
Missing(s) == IF s = <<>> THEN 0 ELSE s[Len(s)] + Missing(SubSeq(s, 1, Len(s)-1))
Headers == {[sess |-> 0, stream |-> 1, func |-> 1, wait |-> 1, sys |-> <<0,0,0,1>>],
            [sess |-> 65535, stream |-> 127, func |-> 254, wait |-> 0, sys |-> <<255,0,128,255>>]}
M == [sess |-> hdr.sess, stream |-> hdr.stream, func |-> hdr.func, wait |-> hdr.wait, sys |-> hdr.sys, nodes |-> nodes]

Init == nodes = <<>> /\ stack = <<1>> /\ hdr \in Headers /\ bytes = <<>> /\ phase = "build"

AddNode(nd) ==
  /\ phase = "build" /\ Missing(stack) > 0
  /\ Len(nodes) + Missing(stack) + nd.n * (IF nd.f = "L" THEN 1 ELSE 0) <= MaxNodes
  /\ nodes' = Append(nodes, nd)
  /\ LET pop == SelectSeq(stack, LAMBDA x : x > 0)   \* closed lists are dropped
         dec == [pop EXCEPT ![Len(pop)] = @ - 1]
     IN stack' = IF nd.f = "L" THEN Append(dec, nd.n) ELSE dec
  /\ UNCHANGED <<hdr, bytes, phase>>

Send == phase = "build" /\ (Missing(stack) = 0 \/ nodes = <<>>) /\ phase' = "sent" /\ bytes' = Encode(M)
        /\ (EmitScn => PrintT("SCN " \o ToJson(M)))
        /\ UNCHANGED <<nodes, stack, hdr>>

Relen(b) == Len4(Len(b) - 4) \o SubSeq(b, 5, Len(b))
Change(i, x) == phase = "sent" /\ bytes' = [bytes EXCEPT ![i] = x]
Cut(n) == phase = "sent" /\ n < Len(bytes) /\ bytes' \in {SubSeq(bytes, 1, n), IF n >= 14 THEN Relen(SubSeq(bytes, 1, n)) ELSE <<>>}
Extend(x) == phase = "sent" /\ bytes' \in {Append(bytes, x), Relen(Append(bytes, x))}
Corrupt == /\ \/ \E i \in 5..Len(bytes), x \in Bytes : Change(i, x)
              \/ \E i \in 4..4, x \in Bytes : Change(i, x)
              \/ \E n \in 0..Len(bytes) : Cut(n)
              \/ \E x \in Bytes : Extend(x)
           /\ phase' = "corrupt" /\ UNCHANGED <<nodes, stack, hdr>>

Next == (\E nd \in NodeSet : AddNode(nd)) \/ Send \/ Corrupt
NextGen == (\E nd \in NodeSet : AddNode(nd)) \/ Send
Spec == Init /\ [][Next]_vars

(* C01: what was encoded is decoded, unchanged. *)
RoundTrip == phase = "sent" =>
  LET d == Decode(bytes) IN
  d.ok /\ ~d.free /\ d.nodes = nodes /\ d.sess = hdr.sess /\ d.stream = hdr.stream /\ d.func = hdr.func
       /\ d.wait = hdr.wait /\ d.sys = hdr.sys /\ CanonFrom(SubSeq(bytes, 15, Len(bytes)), 1)
(* C02: what is accepted says exactly what the bytes say. *)
Faithful == phase = "corrupt" =>
  LET d == Decode(bytes) IN
  d.ok /\ d.type = "data message" =>
     /\ Len(bytes) >= 14
     /\ CanonFrom(SubSeq(bytes, 15, Len(bytes)), 1) /\ ~d.free =>
          Encode([sess |-> d.sess, stream |-> d.stream, func |-> d.func, wait |-> d.wait, sys |-> d.sys, nodes |-> d.nodes]) = bytes
Shortened == phase = "corrupt" /\ Len(bytes) < 14 => ~Decode(bytes).ok
=============================================================================
