------------------------------- MODULE Secs2 -------------------------------
(* The SECS-II / HSMS wire form (SEMI E5, E37) of data and control messages.

   An item tree is written as the preorder sequence of its nodes; a node is a
   record [f, n, v]: format, number of elements (children of a list), and the
   element values, each as K(f) integers:
     A B BOOL   1: the byte (BOOL: 0 or 1)
     U1..U8     8: the bytes of the value, most significant first
     I1..I8     9: sign (0/1) and the 8 bytes of the magnitude
     F4 F8      9: sign, exponent e, 7 bytes of the integer m: value = m * 2^e,
                   normalised: m has 24 (F4) or 53 (F8) bits, or is smaller and
                   e is the smallest exponent of the format.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Code == [L |-> 0, B |-> 8, BOOL |-> 9, A |-> 16, I8 |-> 24, I1 |-> 25, I2 |-> 26, I4 |-> 28,
         F8 |-> 32, F4 |-> 36, U8 |-> 40, U1 |-> 41, U2 |-> 42, U4 |-> 44]
Formats == DOMAIN Code
FmtOf(c) == CHOOSE f \in Formats : Code[f] = c
Codes == {Code[f] : f \in Formats}
W == [L |-> 0, B |-> 1, BOOL |-> 1, A |-> 1, I8 |-> 8, I1 |-> 1, I2 |-> 2, I4 |-> 4,
      F8 |-> 8, F4 |-> 4, U8 |-> 8, U1 |-> 1, U2 |-> 2, U4 |-> 4]
Kind == [L |-> "L", B |-> "X", BOOL |-> "X", A |-> "X", I8 |-> "I", I1 |-> "I", I2 |-> "I", I4 |-> "I",
         F8 |-> "F", F4 |-> "F", U8 |-> "U", U1 |-> "U", U2 |-> "U", U4 |-> "U"]
K(f) == CASE Kind[f] = "X" -> 1 [] Kind[f] = "U" -> 8 [] Kind[f] = "L" -> 1 [] OTHER -> 9

------------------------------------------------------------------------------
(* Two's complement of a byte sequence. *)
RECURSIVE Inc(_)
Inc(b) == IF b = <<>> THEN <<>>
          ELSE LET last == b[Len(b)] IN
               IF last = 255 THEN Append(Inc(SubSeq(b, 1, Len(b)-1)), 0)
               ELSE Append(SubSeq(b, 1, Len(b)-1), last + 1)
Neg(b) == Inc([i \in 1..Len(b) |-> 255 - b[i]])

LastN(s, n) == SubSeq(s, Len(s)-n+1, Len(s))
Pad(b, n) == [i \in 1..(n - Len(b)) |-> 0] \o b

(* One element: value form to bytes and back. *)
EncElem(f, v) ==
  CASE Kind[f] = "X" -> v
    [] Kind[f] = "U" -> LastN(v, W[f])
    [] Kind[f] = "I" -> IF v[1] = 0 THEN LastN(v, W[f]) ELSE Neg(LastN(v, W[f]))
    [] f = "F8" -> LET e == IF v[3] >= 16 THEN v[2] + 1075 ELSE 0 IN
                   << v[1]*128 + (e \div 16), (e % 16)*16 + (v[3] % 16) >> \o SubSeq(v, 4, 9)
    [] f = "F4" -> LET e == IF v[7] >= 128 THEN v[2] + 150 ELSE 0 IN
                   << v[1]*128 + (e \div 2), (e % 2)*128 + (v[7] % 128), v[8], v[9] >>

DecElem(f, b) ==
  CASE f = "BOOL" -> << IF b[1] = 0 THEN 0 ELSE 1 >>
    [] f \in {"A", "B"} -> b
    [] Kind[f] = "U" -> Pad(b, 8)
    [] Kind[f] = "I" -> IF b[1] < 128 THEN <<0>> \o Pad(b, 8) ELSE <<1>> \o Pad(Neg(b), 8)
    [] f = "F8" -> LET e == (b[1] % 128)*16 + (b[2] \div 16) IN
                   << b[1] \div 128, IF e = 0 THEN -1074 ELSE e - 1075,
                      (b[2] % 16) + (IF e = 0 THEN 0 ELSE 16) >> \o SubSeq(b, 3, 8)
    [] f = "F4" -> LET e == (b[1] % 128)*2 + (b[2] \div 128) IN
                   << b[1] \div 128, IF e = 0 THEN -149 ELSE e - 150, 0, 0, 0, 0,
                      (b[2] % 128) + (IF e = 0 THEN 0 ELSE 128), b[3], b[4] >>

(* Infinities and NaN have no value form. *)
NoValue(f, b) == \/ f = "F8" /\ (b[1] % 128)*16 + (b[2] \div 16) = 2047
                 \/ f = "F4" /\ (b[1] % 128)*2 + (b[2] \div 128) = 255
                 \/ f = "A" /\ b[1] > 127

------------------------------------------------------------------------------
(* Encoding *)
ItemHeader(f, len) ==
  CASE len < 256   -> << Code[f]*4 + 1, len >>
    [] len < 65536 -> << Code[f]*4 + 2, len \div 256, len % 256 >>
    [] OTHER       -> << Code[f]*4 + 3, len \div 65536, (len \div 256) % 256, len % 256 >>

Payload(nd) ==
  IF Kind[nd.f] = "X" THEN nd.v
  ELSE LET w == W[nd.f]
           k == K(nd.f)
       IN [i \in 1..(nd.n * w) |->
             EncElem(nd.f, SubSeq(nd.v, ((i-1) \div w)*k + 1, ((i-1) \div w)*k + k))[((i-1) % w) + 1]]

EncNode(nd) == IF nd.f = "L" THEN ItemHeader("L", nd.n)
               ELSE ItemHeader(nd.f, nd.n * W[nd.f]) \o Payload(nd)

EncNodes(nodes) == FoldLeft(LAMBDA acc, nd : acc \o EncNode(nd), <<>>, nodes)

Len4(n) == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>

(* m = [sess, stream, func, wait, sys, nodes] *)
Encode(m) ==
  LET text == EncNodes(m.nodes)
  IN Len4(10 + Len(text)) \o
     << m.sess \div 256, m.sess % 256, m.wait*128 + m.stream, m.func, 0, 0 >> \o m.sys \o text

(* Control messages: c = [stype, sess, b2, b3, sys] *)
STypes == [ data |-> 0, selectreq |-> 1, selectrsp |-> 2, deselectreq |-> 3, deselectrsp |-> 4,
            linktestreq |-> 5, linktestrsp |-> 6, rejectreq |-> 7, separatereq |-> 9 ]
ControlTypes == 1..7 \cup {9}
TypeName(s) == CASE s = 0 -> "data message" [] s = 1 -> "select.req" [] s = 2 -> "select.rsp"
                 [] s = 3 -> "deselect.req" [] s = 4 -> "deselect.rsp" [] s = 5 -> "linktest.req"
                 [] s = 6 -> "linktest.rsp" [] s = 7 -> "reject.req" [] s = 9 -> "separate.req"
EncodeControl(c) == Len4(10) \o << c.sess \div 256, c.sess % 256, c.b2, c.b3, 0, c.stype >> \o c.sys

------------------------------------------------------------------------------
(* Decoding.  The scan keeps a stack with the number of items still missing in
   every open list; it ends when all are complete.                            *)
MaxDepth == 256

Fail == [ok |-> FALSE, pos |-> 0, nodes |-> <<>>, free |-> FALSE]

NodeAt(b, pos) ==   \* the node at pos, or ok = FALSE
  IF pos > Len(b) THEN [ok |-> FALSE]
  ELSE LET c == b[pos] \div 4
           nl == b[pos] % 4
       IN IF c \notin Codes \/ nl = 0 \/ pos + nl > Len(b) THEN [ok |-> FALSE]
          ELSE LET len == CASE nl = 1 -> b[pos+1] [] nl = 2 -> b[pos+1]*256 + b[pos+2]
                            [] nl = 3 -> b[pos+1]*65536 + b[pos+2]*256 + b[pos+3]
                   f == FmtOf(c)
                   start == pos + nl + 1
                   w == W[f]
               IN IF f = "L" THEN [ok |-> TRUE, next |-> start, free |-> FALSE, nl |-> nl, len |-> len,
                                   node |-> [f |-> f, n |-> len, v |-> <<>>]]
                  ELSE IF len % w # 0 \/ start + len - 1 > Len(b) THEN [ok |-> FALSE]
                  ELSE LET cnt == len \div w
                           k == K(f)
                           raw == SubSeq(b, start, start + len - 1)
                       IN [ok |-> TRUE, next |-> start + len, nl |-> nl, len |-> len,
                           free |-> f \in {"A", "F4", "F8"} /\ \E i \in 1..cnt : NoValue(f, SubSeq(raw, (i-1)*w+1, i*w)),
                           node |-> [f |-> f, n |-> cnt,
                                     v |-> IF f \in {"A", "B"} THEN raw
                                           ELSE [i \in 1..(cnt*k) |->
                                                  DecElem(f, SubSeq(raw, ((i-1) \div k)*w + 1, ((i-1) \div k)*w + w))[((i-1) % k) + 1]]]]

RECURSIVE Scan(_, _, _, _, _)
Scan(b, pos, stack, nodes, free) ==
  IF stack = <<>> THEN [ok |-> TRUE, pos |-> pos, nodes |-> nodes, free |-> free]
  ELSE LET top == stack[Len(stack)]
           rest == SubSeq(stack, 1, Len(stack)-1)
       IN IF top = 0 THEN Scan(b, pos, rest, nodes, free)
          ELSE LET r == NodeAt(b, pos) IN
               IF ~r.ok THEN Fail
               ELSE LET st == Append(rest, top - 1)
                        deep == r.node.f = "L" /\ Len(st) > MaxDepth
                    IN Scan(b, r.next, IF r.node.f = "L" THEN Append(st, r.node.n) ELSE st,
                            Append(nodes, r.node), free \/ r.free \/ deep)

Text(t) == IF t = <<>> THEN [ok |-> TRUE, pos |-> 1, nodes |-> <<>>, free |-> FALSE]
           ELSE LET r == Scan(t, 1, <<1>>, <<>>, FALSE)
                IN IF r.ok /\ r.pos = Len(t) + 1 THEN r ELSE Fail

(* What a decoder must say about a byte string b:
     [ok |-> FALSE]                   it is no HSMS message
     [ok |-> TRUE, free, type, ...]   it is this message; if free, it holds something the
                                      item model has no value for (NaN, 8-bit text, nesting beyond
                                      MaxDepth, a W-bit on an even function) and may be refused      *)
Decode(b) ==
  IF Len(b) < 14 THEN [ok |-> FALSE]
  ELSE IF SubSeq(b, 1, 4) # Len4(Len(b) - 4) \/ b[9] # 0 THEN [ok |-> FALSE]
  ELSE LET sess == b[5]*256 + b[6]
           sys == SubSeq(b, 11, 14)
       IN IF b[10] = 0 THEN
             LET t == Text(SubSeq(b, 15, Len(b)))
             IN IF ~t.ok THEN [ok |-> FALSE]
                ELSE [ok |-> TRUE, free |-> t.free \/ (b[7] >= 128 /\ b[8] % 2 = 0), type |-> TypeName(0),
                      sess |-> sess, sys |-> sys, stream |-> b[7] % 128, wait |-> b[7] \div 128, func |-> b[8],
                      nodes |-> t.nodes]
          ELSE IF b[10] \in ControlTypes /\ Len(b) >= 14 THEN
             [ok |-> TRUE, free |-> Len(b) > 14, type |-> TypeName(b[10]), sess |-> sess, sys |-> sys, stream |-> b[7], wait |-> 0,
              func |-> b[8], nodes |-> <<>>]
          ELSE [ok |-> FALSE]

(* A text whose length fields are minimal and whose booleans are 0 or 1. *)
RECURSIVE CanonFrom(_, _)
CanonFrom(t, pos) ==
  IF pos > Len(t) THEN TRUE
  ELSE LET r == NodeAt(t, pos)
       IN /\ r.ok
          /\ r.nl = (CASE r.len < 256 -> 1 [] r.len < 65536 -> 2 [] OTHER -> 3)
          /\ r.node.f = "BOOL" => \A i \in 1..r.len : t[r.next - i] \in {0, 1}
          /\ CanonFrom(t, r.next)
=============================================================================
