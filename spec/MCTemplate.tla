----------------------------- MODULE MCTemplate -----------------------------
(* Every item up to a small size with placeholders a, b, c and every way to
   fill it: in one step or two, in any order, the result is the same.        *)
EXTENDS Template, TLC
Names == {"a", "b", "c"}
VarE == {El("var", n) : n \in Names}
Leaves == {It("U1", <<>>, s) : s \in UNION {[1..n -> VarE \cup {El("val", "1")}] : n \in 0..2}}
          \cup {It("A", <<>>, <<x>>) : x \in {[v EXCEPT !.hi = 1] : v \in VarE} \cup {El("val", "x")}}
          \cup {It("IV", <<>>, <<v>>) : v \in VarE} \cup {It("E", <<>>, <<>>)}
Ell0(n) == It("ELL", <<>>, <<El("var", n)>>)
WellFormed(k) == /\ \A i \in DOMAIN k : k[i].t = "ELL" => i > 1
                 /\ Cardinality({i \in DOMAIN k : k[i].t = "ELL"}) <= 1
Lists(S, n, name) == {It("L", q, <<>>) : q \in {q \in UNION {[1..m -> S \cup {Ell0(name)}] : m \in 0..n} : WellFormed(q)}}
Small == {x \in Leaves : Len(x.e) <= 1}
Items == {x \in Leaves \cup Lists(Leaves, 2, "...") \cup Lists(Small \cup Lists({It("U1", <<>>, <<El("var", "b")>>), It("IV", <<>>, <<El("var", "c")>>)}, 3, "...[1]"), 3, "...") :
            x.t # "IV" /\ ~Dup(Vars(x))}
(* Values for the placeholders, as the item demands                          *)
RECURSIVE Kind(_, _)
Kind(nd, n) == IF nd.t = "L" THEN LET is == {i \in DOMAIN nd.k : IsIn(n, Vars(nd.k[i]))} IN Kind(nd.k[CHOOSE i \in is : TRUE], n) ELSE nd.t
Filler(nd, n, c) == LET t == Kind(nd, n) IN
  [n |-> n, k |-> IF t = "IV" THEN "item" ELSE IF t = "ELL" THEN "count" ELSE "val", s |-> IF t = "A" THEN "x" ELSE "7", c |-> c,
   nd |-> IF t = "IV" THEN It("B", <<>>, <<El("val", "1")>>) ELSE It("E", <<>>, <<>>)]
VARIABLES nd, c
vars == <<nd, c>>
Init == nd \in Items /\ c \in 0..2
Next == UNCHANGED vars
All(x) == [i \in DOMAIN Vars(x) |-> Filler(x, Vars(x)[i], c)]
Part(q, S) == SelectSeq(q, LAMBDA v : v.n \in S)
Plain(x) == SelectSeq(Vars(x), LAMBDA n : n \notin EllNames)
(* Filling all but ellipses leaves just those, in any two steps              *)
Order == \A S \in SUBSET Range(Plain(nd)) :
           LET q == Part(All(nd), Range(Plain(nd))) IN
           /\ Filled(nd, q) = Filled(Filled(nd, Part(q, S)), Part(q, Range(Plain(nd)) \ S))
           /\ Plain(Filled(nd, Part(q, S))) = SelectSeq(Plain(nd), LAMBDA n : n \notin S)
           /\ Len(Vars(Filled(nd, q))) = Len(Vars(nd)) - Len(Plain(nd))
(* Expanding, then filling every copy leaves nothing open; what is filled
   before the expansion has the same value in every copy                     *)
RECURSIVE Complete(_, _)
Complete(x, n) == IF n = 0 \/ Vars(x) = <<>> THEN x ELSE Complete(Filled(x, All(x)), n - 1)
Done == LET x == Complete(nd, 5) IN Vars(x) = <<>> /\ (~Expands(nd, <<>>) => x = Complete(Filled(nd, Part(All(nd), Range(Plain(nd)))), 4))
EllipsisLate == LET q == Part(All(nd), Range(Plain(nd)))
                    once == Complete(Filled(nd, q), 4)
                    ells == Part(All(nd), EllNames) IN
                once = Complete(Filled(nd, ells), 4)
=============================================================================
