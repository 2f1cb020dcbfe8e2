------------------------------ MODULE Template ------------------------------
(* Messages with placeholders and how they are filled.
   An item is [t, k, e]: t its format ("L", "A", "B", "BOOL", "U1".."F8", "E":
   the empty item, and in lists "IV": a placeholder for an item, "ELL": an
   ellipsis), k the children of a list, e the elements of the others, each
   [k, s, lo, hi]: k "val" with the value s, or "var" with the name s; lo, hi
   are the bounds of the length of a text placeholder (hi = -1: none); lo > 0
   is the length of a text whose s is written with escapes.
   A value to fill in is [n, k, s, c, nd]: for the placeholder n, k = "val":
   the value s; "name": the new name s; "item": the item nd; "count": c more
   repetitions; "wrong": a value of a type that no placeholder takes.        *)
EXTENDS Integers, Sequences, FiniteSets, Nodes
It(t, k, e) == [t |-> t, k |-> k, e |-> e]
El(k, s) == [k |-> k, s |-> s, lo |-> 0, hi |-> -1]
Formats == {"A", "B", "BOOL", "U1", "U2", "U4", "U8", "I1", "I2", "I4", "I8", "F4", "F8"}
(* Values that the formats can hold, and values that they cannot.            *)
Good(t) == CASE t = "A" -> <<"", "x", "abc", "a long text with blanks", "T", "v1", "...">>
             [] t = "B" -> <<"0", "1", "127", "128", "255">>
             [] t = "BOOL" -> <<"0", "1">>
             [] t = "U1" -> <<"0", "7", "255">>
             [] t = "U2" -> <<"0", "256", "65535">>
             [] t = "U4" -> <<"0", "65536", "4294967295">>
             [] t = "U8" -> <<"0", "4294967296", "9223372036854775808", "18446744073709551615">>
             [] t = "I1" -> <<"0", "127", "-128", "-1">>
             [] t = "I2" -> <<"0", "32767", "-32768", "128">>
             [] t = "I4" -> <<"0", "2147483647", "-2147483648", "32768">>
             [] t = "I8" -> <<"0", "9223372036854775807", "-9223372036854775808", "2147483648">>
             [] t \in {"F4", "F8"} -> <<"3ff8000000000000", "0", "bfd0000000000000", "c000000000000000">>
Bad(t) == CASE t = "A" -> <<"\\xe9">>
            [] t = "B" -> <<"256", "-1", "0b2", "0b100000000", "0bx">>
            [] t = "BOOL" -> <<"2">>
            [] t = "U1" -> <<"256", "-1", "65536">>
            [] t = "U2" -> <<"65536", "-1", "4294967296">>
            [] t = "U4" -> <<"4294967296", "-1">>
            [] t = "U8" -> <<"-1", "-9223372036854775808">>
            [] t = "I1" -> <<"128", "-129", "256">>
            [] t = "I2" -> <<"32768", "-32769", "65536">>
            [] t = "I4" -> <<"2147483648", "-2147483649", "4294967296">>
            [] t = "I8" -> <<"9223372036854775808", "18446744073709551615">>
            [] t = "F4" -> <<"7fefffffffffffff">>
            [] OTHER -> <<>>
IsIn(s, q) == \E i \in DOMAIN q : q[i] = s
EllNames == {"..."} \cup {"...[" \o ToString(i) \o "]" : i \in 0..4444}
RECURSIVE Vars(_), Flat(_)
Vars(nd) == CASE nd.t = "L" -> Concat([i \in DOMAIN nd.k |-> Vars(nd.k[i])])
              [] OTHER -> Concat([i \in DOMAIN nd.e |-> IF nd.e[i].k = "var" THEN <<nd.e[i].s>> ELSE <<>>])
Dup(s) == Cardinality(Range(s)) # Len(s)
(* The nodes of an item without placeholders                                 *)
Flat(nd) == CASE nd.t = "L" -> <<NL(Len(nd.k))>> \o Concat([i \in DOMAIN nd.k |-> IF nd.k[i].t = "E" THEN <<NL(0)>> ELSE Flat(nd.k[i])])
              [] nd.t = "E" -> <<>>
              [] nd.t = "A" -> <<Nd("A", IF nd.e[1].lo > 0 THEN nd.e[1].lo ELSE Len(nd.e[1].s), <<nd.e[1].s>>)>>
              [] OTHER -> <<Nd(nd.t, Len(nd.e), [i \in DOMAIN nd.e |-> nd.e[i].s])>>
(* Ellipses first. dims: the indices of the repetitions around               *)
RECURSIVE Suffix(_), Expand(_, _, _)
Suffix(dims) == IF dims = <<>> THEN "" ELSE "[" \o ToString(Head(dims)) \o "]" \o Suffix(Tail(dims))
Has(vals, n) == \E i \in DOMAIN vals : vals[i].n = n
Val(vals, n) == vals[CHOOSE i \in DOMAIN vals : vals[i].n = n]
Ell(nd, vals) == {p \in DOMAIN nd.k : nd.k[p].t = "ELL" /\ Has(vals, nd.k[p].e[1].s)}
Expand(nd, vals, dims) ==
  IF nd.t = "ELL" THEN nd
  ELSE IF nd.t # "L" THEN [nd EXCEPT !.e = [i \in DOMAIN nd.e |-> IF nd.e[i].k = "var" THEN [nd.e[i] EXCEPT !.s = @ \o Suffix(dims)] ELSE nd.e[i]]]
  ELSE LET ps == Ell(nd, vals)
           Ex(lo, hi, d) == [i \in 1..(hi - lo + 1) |-> Expand(nd.k[lo + i - 1], vals, d)] IN
       IF ps = {} THEN [nd EXCEPT !.k = Ex(1, Len(nd.k), dims)]
       ELSE LET p == CHOOSE p \in ps : TRUE  c == Val(vals, nd.k[p].e[1].s).c IN
            [nd EXCEPT !.k = (IF c = 0 THEN Ex(1, p - 1, dims) ELSE Concat([r \in 1..(c + 1) |-> Ex(1, p - 1, Append(dims, r - 1))]))
                             \o Ex(p + 1, Len(nd.k), dims)]
RECURSIVE Expands(_, _)
Expands(nd, vals) == nd.t = "L" /\ (Ell(nd, vals) # {} \/ \E i \in DOMAIN nd.k : Expands(nd.k[i], vals))
(* Then the others                                                           *)
RECURSIVE Subst(_, _), Refuses(_, _)
IsName(s) == s \notin {"9x", "a b", "x]", ""}
Takes(t, e, v) ==
  CASE t = "IV" -> v.k = "item" \/ (v.k = "name" /\ IsName(v.s))
    [] t = "A" -> v.k = "val" /\ ~IsIn(v.s, Bad("A")) /\ Len(v.s) >= e.lo /\ (e.hi = -1 \/ Len(v.s) <= e.hi)
    [] OTHER -> (v.k = "val" /\ ~IsIn(v.s, Bad(t))) \/ (v.k = "name" /\ IsName(v.s))
Refuses(nd, vals) == \/ nd.t \notin {"L", "ELL"} /\ \E i \in DOMAIN nd.e : nd.e[i].k = "var" /\ Has(vals, nd.e[i].s) /\ ~Takes(nd.t, nd.e[i], Val(vals, nd.e[i].s))
                     \/ \E i \in DOMAIN nd.k : Refuses(nd.k[i], vals)
Subst(nd, vals) ==
  CASE nd.t = "ELL" -> nd
    [] nd.t = "IV" /\ Has(vals, nd.e[1].s) /\ Val(vals, nd.e[1].s).k = "item" -> Val(vals, nd.e[1].s).nd
    [] OTHER -> [nd EXCEPT !.k = [i \in DOMAIN nd.k |-> Subst(nd.k[i], vals)],
                           !.e = [i \in DOMAIN nd.e |->
                                   IF nd.e[i].k = "var" /\ Has(vals, nd.e[i].s)
                                   THEN LET v == Val(vals, nd.e[i].s) IN IF v.k = "name" THEN [nd.e[i] EXCEPT !.s = v.s] ELSE El("val", v.s)
                                   ELSE nd.e[i]]]
Filled(nd, vals) == Subst(Expand(nd, vals, <<>>), vals)
(* Only what the placeholders cannot take is refused, or two of one name     *)
FillOK(nd, vals) == LET x == Expand(nd, vals, <<>>) IN
                    /\ \A i \in DOMAIN nd.k : TRUE
                    /\ ~Refuses(x, vals)
                    /\ ~Dup(SelectSeq(Vars(x), LAMBDA s : s \notin EllNames))
                    /\ ~Dup(SelectSeq(Vars(Subst(x, vals)), LAMBDA s : s \notin EllNames))
(* The names of the ellipses that an expansion leaves are the code's choice  *)
RECURSIVE Rename(_, _)
Rename(nd, names) ==      \* names: of nd's placeholders, in order
  IF nd.t # "L" THEN [nd EXCEPT !.e = [i \in DOMAIN nd.e |-> IF nd.e[i].k = "var" THEN [nd.e[i] EXCEPT !.s = names[Cardinality({j \in 1..i : nd.e[j].k = "var"})]] ELSE nd.e[i]]]
  ELSE LET n(i) == Len(Concat([j \in 1..i |-> Vars(nd.k[j])])) IN
       [nd EXCEPT !.k = [i \in DOMAIN nd.k |-> Rename(nd.k[i], SubSeq(names, n(i - 1) + 1, n(i)))]]
SameVars(vs, seen) == Len(vs) = Len(seen) /\ ~Dup(seen) /\ \A i \in DOMAIN vs : vs[i] = seen[i] \/ (vs[i] \in EllNames /\ seen[i] \in EllNames)
(* A message: header and item. It has bytes when nothing is open             *)
Bytes(m) == Vars(m.nd) = <<>> /\ m.hdr.w # 2 /\ m.hdr.sess # -1
=============================================================================
