------------------------------- MODULE Access -------------------------------
(* Reading a message by position: the item at a path of list indices (from 0),
   and single values of an item by the path and the index of the value. Items
   are preorder node sequences as in Secs2; the empty message is <<>>.        *)
EXTENDS Secs2

RECURSIVE Skip(_, _, _)
End(ns, i) == IF ns[i].f = "L" THEN Skip(ns, i + 1, ns[i].n) ELSE i + 1     \* index after the item at i
Skip(ns, i, c) == IF c = 0 THEN i ELSE Skip(ns, End(ns, i), c - 1)
Sub(ns, i) == SubSeq(ns, i, End(ns, i) - 1)

RECURSIVE Walk(_, _, _)
Walk(ns, i, path) ==                      \* where the path leads, 0 if nowhere
  IF path = <<>> THEN i
  ELSE IF ns[i].f # "L" \/ path[1] < 0 \/ path[1] >= ns[i].n THEN 0
  ELSE Walk(ns, Skip(ns, i + 1, path[1]), SubSeq(path, 2, Len(path)))
At(ns, path) == IF ns = <<>> THEN 0 ELSE Walk(ns, 1, path)

ValFmts == [byte |-> {"B"}, bool |-> {"BOOL"}, int |-> {"I1", "I2", "I4", "I8"}, float |-> {"F4", "F8"}]
Elem(nd, k) == SubSeq(nd.v, k * K(nd.f) + 1, (k + 1) * K(nd.f))

(* What a reader may get: "val" with the item's nodes or the value's digits,
   "err", or "any" where a wrong call is the caller's own mistake.            *)
Item(ns, path) == LET i == At(ns, path) IN
  IF ns = <<>> /\ path = <<>> THEN [k |-> "val", x |-> <<>>]
  ELSE IF i = 0 THEN [k |-> "err", x |-> <<>>] ELSE [k |-> "val", x |-> Sub(ns, i)]
Ascii(ns, path) == LET i == At(ns, path) IN
  IF i = 0 THEN [k |-> "err", x |-> <<>>]
  ELSE IF ns[i].f = "A" THEN [k |-> "val", x |-> ns[i].v] ELSE [k |-> "err", x |-> <<>>]
Value(ns, path, fn) ==
  IF path = <<>> THEN [k |-> "any", x |-> <<>>]
  ELSE LET i == At(ns, SubSeq(path, 1, Len(path) - 1))
           k == path[Len(path)] IN
       IF i = 0 THEN [k |-> "err", x |-> <<>>]
       ELSE IF ns[i].f \notin ValFmts[fn] THEN [k |-> IF fn = "int" /\ Kind[ns[i].f] = "U" THEN "any" ELSE "err", x |-> <<>>]
       ELSE IF k < 0 \/ k >= ns[i].n THEN [k |-> "none", x |-> <<>>]        \* an error or a panic, but no value
       ELSE [k |-> "val", x |-> Elem(ns[i], k)]
Read(ns, path, fn) == CASE fn = "item" -> Item(ns, path) [] fn = "ascii" -> Ascii(ns, path) [] OTHER -> Value(ns, path, fn)
=============================================================================
