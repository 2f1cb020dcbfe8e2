------------------------------- MODULE MCSml -------------------------------
(* Every small message written as tokens means that message; no proper prefix
   of such a text, and no text with one token left out or doubled, means a
   message of other items by accident: it is refused or means what was left.  *)
EXTENDS Sml, TLC
As(v) == [f \in Formats |-> IF f \in {"U1", "B"} THEN v ELSE ""]
RECURSIVE Toks(_)
Elem(f, x) == IF x.k = "var" THEN [t |-> "var", x |-> x.s]
              ELSE IF f = "A" THEN [t |-> "str", v |-> x.s, n |-> Len(x.s), bad |-> FALSE]
              ELSE IF f = "BOOL" THEN [t |-> "bool", v |-> x.s, x |-> x.s]
              ELSE [t |-> "num", x |-> x.s, as |-> As(x.s)]
Toks(nd) == IF nd.t \in {"IV", "ELL"} THEN <<IF nd.t = "ELL" THEN [t |-> "ell", x |-> "..."] ELSE [t |-> "var", x |-> nd.e[1].s]>>
            ELSE <<[t |-> "lab", x |-> "<"], [t |-> "type", f |-> nd.t, x |-> nd.t]>>
                 \o (IF nd.t = "A" /\ nd.e[1].k = "var" THEN <<[t |-> "size", lo |-> nd.e[1].lo, hi |-> nd.e[1].hi, x |-> "[]"]>> ELSE <<>>)
                 \o (IF nd.t = "L" THEN Concat([i \in DOMAIN nd.k |-> Toks(nd.k[i])]) ELSE [i \in DOMAIN nd.e |-> Elem(nd.t, nd.e[i])])
                 \o <<[t |-> "rab", x |-> ">"]>>
MsgToks(m) == <<[t |-> "sf", s |-> m.s, f |-> m.f, x |-> "SF"]>>
              \o (IF m.w = 0 THEN <<>> ELSE <<[t |-> "wait", w |-> m.w, x |-> "W"]>>)
              \o (IF m.dir = "H<->E" THEN <<>> ELSE <<[t |-> "dir", d |-> m.dir, x |-> m.dir]>>)
              \o (IF m.name = "" THEN <<>> ELSE <<[t |-> "name", x |-> m.name]>>)
              \o (IF m.nd.t = "E" THEN <<>> ELSE Toks(m.nd)) \o <<[t |-> "end", x |-> "."]>>
Leaves == {It("U1", <<>>, q) : q \in UNION {[1..n -> {[El("val", "7") EXCEPT !.lo = 1], El("var", "a")}] : n \in 0..2}}
          \cup {It("A", <<>>, <<x>>) : x \in {[El("val", "xy") EXCEPT !.lo = 2], [El("var", "b") EXCEPT !.lo = 1, !.hi = 3]}}
          \cup {It("BOOL", <<>>, <<El("val", "1")>>), It("IV", <<>>, <<El("var", "c")>>), It("ELL", <<>>, <<El("var", "...")>>)}
WellFormed(q) == Cardinality({i \in DOMAIN q : q[i].t = "ELL"}) <= 1 /\ (q = <<>> \/ q[1].t # "ELL")
Lists(S) == {It("L", q, <<>>) : q \in {q \in UNION {[1..n -> S] : n \in 0..2} : WellFormed(q)}}
Items == {x \in Leaves \cup Lists(Leaves \cup Lists({x \in Leaves : Len(x.e) = 1 /\ x.t # "BOOL"})) \cup {It("E", <<>>, <<>>)} : x.t \notin {"IV", "ELL"} /\ ~Dup(SelectSeq(Vars(x), LAMBDA v : v # "..."))}
VARIABLE m
Init == m \in [s : {0}, f : {3}, w : {0}, dir : {"H<->E"}, name : {""}, nd : Items]
Next == /\ m.s = 0
        /\ \E f \in {2, 3}, w \in {0, 1, 2}, n \in {"", "n"} :
              ~(w = 1 /\ f = 2) /\ m' = [m EXCEPT !.s = 1, !.f = f, !.w = w, !.name = n, !.dir = IF n = "" THEN "H->E" ELSE "H<->E"]
T == MsgToks(m)
(* lo also tells the length of a written text                                *)
Faithful == Meaning(T) = [ok |-> TRUE, ms |-> <<m>>, open |-> FALSE]
Two == Meaning(T \o T).ms = <<m, m>>
Unfinished == \A n \in 1..(Len(T) - 1) : ~Meaning(SubSeq(T, 1, n)).ok
(* Leaving out a bracket is never accepted                                   *)
Without(i) == SubSeq(T, 1, i - 1) \o SubSeq(T, i + 1, Len(T))
Brackets == \A i \in DOMAIN T : T[i].t \in {"lab", "rab", "type", "sf", "end"} => ~Meaning(Without(i)).ok
=============================================================================
