---------------------------- MODULE TraceControl ----------------------------
(* The control state machine by itself, used by any number of goroutines: each
   request is one step along an edge of E30 or is refused and changes nothing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES l, s, open, done
On(m) == IF m = "LOCAL" THEN "OL" ELSE "OR"
Start(e) == [st |-> IF e.init = "ON" THEN On(e.mode) ELSE e.init, mode |-> e.mode]
To(s0, st) == [s0 EXCEPT !.st = st]
Online(s0) == s0.st \in {"OL", "OR"}
(* the state after a request, if the request is for this state *)
Moves(s0, f) ==
  CASE f = "swOn" /\ s0.st = "EO" -> {To(s0, "AO")}
    [] f = "swOff" /\ Online(s0) -> {To(s0, "EO")}
    [] f = "swLocal" /\ s0.st = "OR" -> {[st |-> "OL", mode |-> "LOCAL"]}
    [] f = "swRemote" /\ s0.st = "OL" -> {[st |-> "OR", mode |-> "REMOTE"]}
    [] f = "failEO" /\ s0.st = "AO" -> {To(s0, "EO")}
    [] f = "failHO" /\ s0.st = "AO" -> {To(s0, "HO")}
    [] f = "success" /\ s0.st = "AO" -> {To(s0, On(s0.mode))}
    [] f = "remOff" /\ Online(s0) -> {To(s0, "HO")}
    [] f = "remOn" /\ s0.st = "HO" -> {To(s0, On(s0.mode))}
    [] OTHER -> {}
(* where a request finds what it asks for *)
There(s0, f) ==
  CASE f = "swOn" -> s0.st \in {"AO", "OL", "OR"}
    [] f = "swOff" -> s0.st \in {"EO", "HO"}
    [] f = "swLocal" -> s0.st = "OL"
    [] f = "swRemote" -> s0.st = "OR"
    [] f = "failEO" -> s0.st = "EO"
    [] f \in {"failHO", "remOff"} -> s0.st = "HO"
    [] f \in {"success", "remOn"} -> Online(s0)
    [] OTHER -> f = "start"
Apply(s0, c, e) ==
  IF c.f = "state" THEN (IF c.res = s0.st THEN {s0} ELSE {})
  ELSE IF c.f = "mode" THEN (IF c.res = s0.mode THEN {s0} ELSE {})
  ELSE IF c.f = "online" THEN (IF (c.res = "yes") = Online(s0) THEN {s0} ELSE {})
  ELSE IF c.res = "ok" THEN (IF Moves(s0, c.f) # {} THEN Moves(s0, c.f) ELSE IF There(s0, c.f) THEN {s0} ELSE {})
  ELSE IF Moves(s0, c.f) = {} /\ c.f # "start" THEN {s0} ELSE {}
Inner(s0, e, ops) == {}
Seen(s0, e, ops) == {}
Note(s0, e, ops) == {s0}
INSTANCE Lin
=============================================================================
