-------------------------------- MODULE Lin --------------------------------
(* Histories of concurrent operations on an object given by its abstract state:
   a recorded history is accepted if every operation can have taken effect at
   one moment between its call and its return, with the recorded result, and
   everything else that was observed fits.

   Lines: "new" starts a history; "call" with id, operation f, its arguments and
   the result res it will have; "ret" with id; any other line is an observation.
   The object: Start(e); Apply(s, c, e), the states after operation c if it has
   its result in s, taking effect before line e; Inner(s, e, ops), steps nobody
   calls before line e; Seen(s, e, ops), the states after an observation;
   Note(s, e, ops), the state after a call or return, if that is allowed, in a set.
   Ops are those called and not returned.                                     *)
EXTENDS TraceBase
CONSTANTS Start(_), Apply(_, _, _), Inner(_, _, _), Seen(_, _, _), Note(_, _, _)
VARIABLES l, s, open, done
vars == <<l, s, open, done>>
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Ops == open @@ done
e == Trace[l]
New == e.op = "new" /\ open = <<>> /\ done = <<>> /\ s' = Start(e) /\ l' = l + 1 /\ UNCHANGED <<open, done>>
Call == e.op = "call" /\ s' \in Note(s, e, Ops) /\ open' = (e.id :> e) @@ open /\ l' = l + 1 /\ UNCHANGED done
Ret == /\ e.op = "ret" /\ e.id \in DOMAIN done
       /\ s' \in Note(s, e, Ops)
       /\ done' = Del(done, e.id) /\ l' = l + 1 /\ UNCHANGED open
Obs == e.op \notin {"new", "call", "ret"} /\ s' \in Seen(s, e, Ops) /\ l' = l + 1 /\ UNCHANGED <<open, done>>
Effect == /\ e.op \notin {"new", "call"} /\ ~(e.op = "ret" /\ e.id \in DOMAIN done /\ Note(s, e, Ops) # {})
          /\ \/ \E i \in DOMAIN open : /\ s' \in Apply(s, open[i], e)
                                        /\ done' = (i :> open[i]) @@ done /\ open' = Del(open, i)
             \/ s' \in Inner(s, e, Ops) /\ UNCHANGED <<open, done>>
          /\ UNCHANGED l
Init == TLCSet(1, 0) /\ l = 1 /\ s = <<>> /\ open = <<>> /\ done = <<>>
Next == l <= Len(Trace) /\ (New \/ Call \/ Ret \/ Obs \/ Effect)
Spec == Init /\ [][Next]_vars
HighWater == Reached(l)
=============================================================================
