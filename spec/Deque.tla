------------------------------- MODULE Deque -------------------------------
(* How the transaction queue keeps its promise: items under a lock and one token
   for whoever waits. Put adds an item, then leaves a token. Get looks for an
   item, waits for a token or its timeout, and looks again; when it leaves items
   behind it passes the token on. Every step is one hold of the lock or one
   operation on the channel of the token.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Putters, Getters, Each, PassOn
VARIABLES q, token, pc, left, late, got
vars == <<q, token, pc, left, late, got>>
Procs == Putters \cup Getters
Init == /\ q = <<>> /\ token = FALSE /\ got = <<>>
        /\ pc = [p \in Procs |-> IF p \in Putters THEN "put" ELSE "look"]
        /\ left = [p \in Procs |-> Each] /\ late = [p \in Getters |-> FALSE]
Put(p) == pc[p] = "put" /\ left[p] > 0 /\ q' = Append(q, <<p, left[p]>>) /\ pc' = [pc EXCEPT ![p] = "tell"] /\ UNCHANGED <<token, left, late, got>>
Over(p) == pc' = [pc EXCEPT ![p] = IF p \in Putters THEN "put" ELSE "look"] /\ left' = [left EXCEPT ![p] = @ - 1]
Tell(p) == pc[p] = "tell" /\ token' = TRUE /\ Over(p) /\ (IF p \in Getters THEN late' = [late EXCEPT ![p] = FALSE] ELSE UNCHANGED late) /\ UNCHANGED <<q, got>>
Look(p) == /\ pc[p] = "look" /\ left[p] > 0
           /\ IF q # <<>>
              THEN /\ q' = Tail(q) /\ got' = Append(got, Head(q))
                   /\ IF PassOn /\ Len(q) > 1 THEN pc' = [pc EXCEPT ![p] = "tell"] /\ UNCHANGED <<left, late>> ELSE Over(p) /\ late' = [late EXCEPT ![p] = FALSE]
              ELSE /\ UNCHANGED <<q, got>>
                   /\ IF late[p] THEN Over(p) /\ late' = [late EXCEPT ![p] = FALSE] ELSE pc' = [pc EXCEPT ![p] = "wait"] /\ UNCHANGED <<left, late>>
           /\ UNCHANGED token
Woken(p) == pc[p] = "wait" /\ token /\ token' = FALSE /\ pc' = [pc EXCEPT ![p] = "look"] /\ UNCHANGED <<q, left, late, got>>
Timeout(p) == pc[p] = "wait" /\ late' = [late EXCEPT ![p] = TRUE] /\ pc' = [pc EXCEPT ![p] = "look"] /\ UNCHANGED <<q, token, left, got>>
Next == \E p \in Procs : (p \in Putters /\ Put(p)) \/ Tell(p) \/ (p \in Getters /\ (Look(p) \/ Woken(p) \/ Timeout(p)))
Spec == Init /\ [][Next]_vars
(* An item never lies there while a Get waits that nothing is about to wake *)
NoLostWakeup == (q # <<>> /\ (\E p \in Getters : pc[p] = "wait")) =>
                token \/ (\E p \in Procs : pc[p] = "tell" \/ (p \in Getters /\ pc[p] = "look" /\ left[p] > 0))
Put1(p) == [k \in 1..(Each - left[p] + (IF pc[p] = "tell" THEN 1 ELSE 0)) |-> <<p, Each + 1 - k>>]
(* Every item is in the queue or was got, once, those of each Put in order *)
Of(s, p) == SelectSeq(s, LAMBDA x : x[1] = p)
Once == \A p \in Putters : Of(got \o q, p) = Put1(p)
=============================================================================
