-------------------------------- MODULE Nodes --------------------------------
(* Message bodies as preorder sequences of nodes [t, n, v]: t the item format
   ("L", "A", "B", "BOOL", "U1".."I8", "F4", "F8"), n the number of elements
   (children of a list), v the elements as strings. The empty body is <<>>.
   Patterns are bodies with further formats, see NodeMatches.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nd(t, n, v) == [t |-> t, n |-> n, v |-> v]
NL(n) == Nd("L", n, <<>>)
NA(s) == Nd("A", Len(s), <<s>>)
NB(s) == Nd("B", 1, <<s>>)
NU(w, s) == Nd(w, 1, <<s>>)
UFmts == {"U1", "U2", "U4", "U8"}
IFmts == {"I1", "I2", "I4", "I8"}

RECURSIVE Skip(_, _, _)
End(ns, i) == IF ns[i].t = "L" THEN Skip(ns, i + 1, ns[i].n) ELSE i + 1   \* index after the item at i
Skip(ns, i, c) == IF c = 0 THEN i ELSE Skip(ns, End(ns, i), c - 1)
Kid(ns, i, k) == Skip(ns, i + 1, k - 1)                                    \* index of the k-th child of the list at i
Kids(ns, i) == [k \in 1..ns[i].n |-> Kid(ns, i, k)]
Sub(ns, i) == SubSeq(ns, i, End(ns, i) - 1)
IsList(ns, i) == i <= Len(ns) /\ ns[i].t = "L"

(* Identifiers: text or a non-negative number, of any width. *)
IdOK(nd) == \/ nd.t = "A"
            \/ nd.t \in UFmts /\ nd.n >= 1
            \/ nd.t \in IFmts /\ nd.n >= 1 /\ SubSeq(nd.v[1], 1, 1) # "-"
Key(nd) == IF nd.t = "A" THEN "S:" \o nd.v[1] ELSE "N:" \o nd.v[1]

(* ------------------------------ patterns ------------------------------ *)
PId(k) == Nd("ID", 0, <<k>>)             \* an identifier with this key
PUnknown == Nd("ANYN", 0, <<>>)          \* some number
PNum(s) == Nd("NUM", 0, <<s>>)           \* this number, of any integer format
PCode(ss) == Nd("CODE", 0, ss)           \* one byte out of these
PNonZero == Nd("NZ", 0, <<>>)            \* one byte, not zero
PByte == Nd("BYTE", 0, <<>>)             \* one byte
PRest == Nd("REST", 0, <<>>)             \* anything to the end of the body
Range(s) == {s[i] : i \in 1..Len(s)}

NodeMatches(p, q) ==
  CASE p.t = "ID" -> IdOK(q) /\ Key(q) = p.v[1]
    [] p.t = "ANYN" -> q.t \in UFmts \cup IFmts
    [] p.t = "NUM" -> q.t \in UFmts \cup IFmts /\ q.v = p.v
    [] p.t = "CODE" -> q.t = "B" /\ q.n = 1 /\ q.v[1] \in Range(p.v)
    [] p.t = "NZ" -> q.t = "B" /\ q.n = 1 /\ q.v[1] # "0"
    [] p.t = "BYTE" -> q.t = "B" /\ q.n = 1
    [] p.t = "TEXT" -> q.t = "A" /\ q.v = p.v
    [] p.t = "TIME" -> q.t = "A" /\ q.n = 16 /\ q.v[1] \in Range(p.v)
    [] OTHER -> p = q

Matches(p, q) ==
  IF p # <<>> /\ p[Len(p)].t = "REST"
  THEN Len(q) >= Len(p) - 1 /\ \A i \in 1..(Len(p) - 1) : NodeMatches(p[i], q[i])
  ELSE Len(p) = Len(q) /\ \A i \in 1..Len(p) : NodeMatches(p[i], q[i])

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(* Small finite maps *)
EmptyMap == [x \in {} |-> 0]
Put(f, k, x) == (k :> x) @@ f
Del(f, ks) == [x \in (DOMAIN f) \ ks |-> f[x]]
==============================================================================
