------------------------------ MODULE TraceBase ------------------------------
(* Reading a trace and reporting how far it was explained.
   A trace specification defines its own VARIABLES l, ...; it lists HighWater as
   a CONSTRAINT and Accepted as the POSTCONDITION, and runs with one worker.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, 0)
Reached(l) == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-REJECTED " \o ToString(TLCGet(1)))
(* A step's expectation: prints what was expected when it does not hold. *)
Expect(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"EXPECTED", what, exp, "GOT", got>>) /\ FALSE
==============================================================================
