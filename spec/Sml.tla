-------------------------------- MODULE Sml --------------------------------
(* What SML text means. A text is a sequence of tokens [t, x, ...]: t its kind,
   x how it is written;
     "sf" with s, f: the stream and function code    "wait" with w: W or [W]
     "dir" with d: the direction                     "name"
     "end", "lab", "rab", "ell", "type" with f: the format
     "size" with lo, hi (-1: none)                   "bool" with v: "0" or "1"
     "num" with as: by format the value it has there, "" if it has none
     "str" with v: the text, escaped, and n: its length; bad: not ASCII
     "var"                                           "junk": no token at all
   odd: a token that may be an error or mean what it says (escapes in a text,
   unusual blanks), at the code's choice.                                     *)
EXTENDS Template
Err == [ok |-> FALSE, i |-> 0, nd |-> <<>>, open |-> FALSE]
(* Between messages and up to the item, other words are names; within, what
   could be a name is a placeholder                                          *)
HeadKind(k) == IF k.t \in {"sf", "wait", "dir", "end", "lab", "eof"} THEN k.t ELSE IF k.t = "ell" THEN "junk" ELSE "name"
TextKind(k) == IF k.t \in {"sf", "name"} \/ (k.t = "wait" /\ k.w = 1) THEN "var" ELSE IF k.t \in {"wait", "dir"} THEN "junk" ELSE k.t
SizeOK(n, lo, hi) == n >= lo /\ (hi = -1 \/ n <= hi)
RECURSIVE Item(_, _), Children(_, _, _), Values(_, _, _, _)
(* The values of format f from i on, up to ">": [ok, i, e, var]              *)
Values(ks, i, f, e) ==
  LET k == ks[i] t == TextKind(k) IN
  IF t = "rab" THEN [ok |-> TRUE, i |-> i, e |-> e]
  ELSE IF t = "var" THEN Values(ks, i + 1, f, Append(e, El("var", k.x)))
  ELSE IF t = "num" /\ f # "BOOL" /\ k.as[f] # "" THEN Values(ks, i + 1, f, Append(e, [El("val", k.as[f]) EXCEPT !.lo = 1]))
  ELSE IF t = "str" /\ f = "A" /\ ~k.bad THEN Values(ks, i + 1, f, Append(e, [El("val", k.v) EXCEPT !.lo = k.n]))
  ELSE IF t = "bool" /\ f = "BOOL" THEN Values(ks, i + 1, f, Append(e, El("val", k.v)))
  ELSE [ok |-> FALSE, i |-> i, e |-> e]
RECURSIVE Join(_), Total(_)
Join(e) == IF e = <<>> THEN "" ELSE e[1].s \o Join(Tail(e))
Total(e) == IF e = <<>> THEN 0 ELSE e[1].lo + Total(Tail(e))
(* The children of a list from i on: [ok, i, nd, open], nd its children      *)
Children(ks, i, q) ==
  LET k == ks[i] t == TextKind(k) IN
  IF t = "rab" THEN [ok |-> TRUE, i |-> i, nd |-> q, open |-> FALSE]
  ELSE IF t = "lab" THEN LET r == Item(ks, i) IN IF ~r.ok THEN Err ELSE LET s == Children(ks, r.i, Append(q, r.nd)) IN [s EXCEPT !.open = @ \/ r.open]
  ELSE IF t = "var" THEN Children(ks, i + 1, Append(q, It("IV", <<>>, <<El("var", k.x)>>)))
  ELSE IF t = "ell" /\ q # <<>> /\ \A j \in DOMAIN q : q[j].t # "ELL" THEN Children(ks, i + 1, Append(q, It("ELL", <<>>, <<El("var", "...")>>)))
  ELSE Err
(* The item from i on: [ok, i, nd, open]; i is where it ends, open: whether
   the size given to a list with an ellipsis matters is left to the code     *)
Item(ks, i) ==
  IF ks[i].t # "lab" \/ ks[i + 1].t # "type" THEN Err
  ELSE LET f == ks[i + 1].f
           sized == ks[i + 2].t = "size"
           lo == IF sized THEN ks[i + 2].lo ELSE 0
           hi == IF sized THEN ks[i + 2].hi ELSE -1
           j == IF sized THEN i + 3 ELSE i + 2 IN
       IF f = "L"
       THEN LET r == Children(ks, j, <<>>) IN
            IF ~r.ok THEN Err
            ELSE LET ell == \E p \in DOMAIN r.nd : r.nd[p].t = "ELL" IN
                 IF ~ell /\ ~SizeOK(Len(r.nd), lo, hi) THEN Err
                 ELSE [ok |-> TRUE, i |-> r.i + 1, nd |-> It("L", r.nd, <<>>), open |-> r.open \/ (ell /\ sized)]
       ELSE LET r == Values(ks, j, f, <<>>) IN
            IF ~r.ok THEN Err
            ELSE IF f = "A"
            THEN IF \E p \in DOMAIN r.e : r.e[p].k = "var"
                 THEN IF Len(r.e) # 1 \/ (hi # -1 /\ lo > hi) THEN Err
                      ELSE [ok |-> TRUE, i |-> r.i + 1, nd |-> It("A", <<>>, <<[r.e[1] EXCEPT !.lo = lo, !.hi = hi]>>), open |-> FALSE]
                 ELSE IF ~SizeOK(Total(r.e), lo, hi) THEN Err
                      ELSE [ok |-> TRUE, i |-> r.i + 1, nd |-> It("A", <<>>, <<[El("val", Join(r.e)) EXCEPT !.lo = Total(r.e)]>>), open |-> FALSE]
            ELSE IF ~SizeOK(Len(r.e), lo, hi) THEN Err
                 ELSE [ok |-> TRUE, i |-> r.i + 1, nd |-> It(f, <<>>, r.e), open |-> FALSE]
RECURSIVE Messages(_, _, _)
(* The messages from i on: [ok, ms, open]                                    *)
Bad1 == [ok |-> FALSE, ms |-> <<>>, open |-> FALSE]
Messages(ks, i, q) ==
  LET k == ks[i] IN
  IF k.t = "eof" THEN [ok |-> TRUE, ms |-> q, open |-> FALSE]
  ELSE IF k.t # "sf" \/ k.s > 127 \/ k.f > 255 THEN Bad1
  ELSE LET w == HeadKind(ks[i + 1]) = "wait"
           i1 == IF w THEN i + 2 ELSE i + 1
           d == HeadKind(ks[i1]) = "dir"
           i2 == IF d THEN i1 + 1 ELSE i1
           n == HeadKind(ks[i2]) = "name"
           i3 == IF n THEN i2 + 1 ELSE i2
           r == IF HeadKind(ks[i3]) = "lab" THEN Item(ks, i3) ELSE [ok |-> TRUE, i |-> i3, nd |-> It("E", <<>>, <<>>), open |-> FALSE] IN
       IF ~r.ok THEN Bad1
       ELSE IF ks[r.i].t # "end" \/ Dup(SelectSeq(Vars(r.nd), LAMBDA v : v # "...")) \/ (w /\ ks[i + 1].w = 1 /\ k.f % 2 = 0) THEN Bad1
       ELSE LET m == [s |-> k.s, f |-> k.f, w |-> IF w THEN ks[i + 1].w ELSE 0, dir |-> IF d THEN ks[i1].d ELSE "H<->E", name |-> IF n THEN ks[i2].x ELSE "", nd |-> r.nd]
                x == Messages(ks, r.i + 1, Append(q, m)) IN
            [x EXCEPT !.open = @ \/ r.open]
Pad == [j \in 1..4 |-> [t |-> "eof"]]
Meaning(ks) == LET r == Messages(ks \o Pad, 1, <<>>) IN r
(* How a message is seen: without placeholders, the nodes of its bytes       *)
View(m) == [s |-> m.s, f |-> m.f, w |-> m.w, dir |-> m.dir, name |-> m.name, vars |-> Vars(m.nd), item |-> IF Vars(m.nd) = <<>> THEN Flat(m.nd) ELSE <<>>]
SameView(a, b) == SameVars(a.vars, b.vars) /\ [a EXCEPT !.vars = <<>>] = [b EXCEPT !.vars = <<>>]
(* May res, "err" or the messages seen, be what the text gives?              *)
Allowed(ks, res, seen0) ==
  LET odd == \E i \in DOMAIN ks : ks[i].odd
      r == Meaning(SelectSeq(ks, LAMBDA k : k.t # "blank")) IN
  IF ~r.ok THEN res = "err" /\ seen0 = <<>>
  ELSE \/ res = "err" /\ (odd \/ r.open) /\ seen0 = <<>>
       \/ res = "ok" /\ Len(seen0) = Len(r.ms) /\ \A i \in DOMAIN r.ms : SameView(View(r.ms[i]), seen0[i])
=============================================================================
