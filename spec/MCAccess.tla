------------------------------ MODULE MCAccess ------------------------------
(* All small trees: each item is reached by exactly one path, and the item
   reached is complete and lies where its parent says.                       *)
EXTENDS Access
CONSTANT MaxNodes
VARIABLES ns
Leaf(f, n) == [f |-> f, n |-> n, v |-> [i \in 1..(n * K(f)) |-> i]]
NodeSet == {Leaf("U1", 1), Leaf("B", 2), Leaf("F4", 1), Leaf("A", 0)} \cup {[f |-> "L", n |-> n, v |-> <<>>] : n \in 0..3}
RECURSIVE Open(_, _)
Open(s, i) == IF i > Len(s) THEN 1 ELSE Open(s, i + 1) - 1 + (IF s[i].f = "L" THEN s[i].n ELSE 0)
Init == ns = <<>>
Next == \E nd \in NodeSet : Len(ns) < MaxNodes /\ (ns = <<>> \/ Open(ns, 1) > 0) /\ ns' = Append(ns, nd)
Whole == ns # <<>> /\ Open(ns, 1) = 0
Paths == UNION {[1..d -> 0..3] : d \in 0..MaxNodes}
OnePath == Whole => /\ \A i \in 1..Len(ns) : Cardinality({p \in Paths : At(ns, p) = i}) = 1
                    /\ \A p \in Paths : At(ns, p) \in 0..Len(ns)
Nested == Whole => \A p \in Paths : LET i == At(ns, p) IN i > 0 =>
            /\ Open(Sub(ns, i), 1) = 0 /\ (\A j \in 1..(Len(Sub(ns, i)) - 1) : Open(SubSeq(Sub(ns, i), 1, j), 1) > 0)
            /\ \A q \in UNION {[1..d -> 0..3] : d \in 0..2} : At(Sub(ns, i), q) = (IF At(ns, p \o q) = 0 THEN 0 ELSE At(ns, p \o q) - i + 1)
Typed == Whole => \A p \in Paths : p # <<>> => Cardinality({fn \in DOMAIN ValFmts : Value(ns, p, fn).k = "val"}) <= 1
=============================================================================
