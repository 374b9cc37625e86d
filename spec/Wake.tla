-------------------------------- MODULE Wake --------------------------------
(***************************************************************************)
(* Tasks awaiting operations on the ring, under an executor that polls a   *)
(* task only if it was woken since.  How a pending poll provides for being *)
(* woken:                                                                  *)
(*   "self"   wakes its own task before returning Pending (as the code)    *)
(*   "keep"   stores the waker and nobody uses it (as the code once did)   *)
(*   "peer"   stores the waker where the peer wakes it after publishing,   *)
(*            after the last attempt (a lost wake-up)                      *)
(*   "peer2"  the same, but attempts again after storing it                *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS L, N, Mode

VARIABLES idx,     \* positions of P and C (counted, not wrapped)
          st,      \* task -> "ready", "second", "store", "storedThen2", "parked", "done"
          woken,   \* task -> BOOLEAN
          stored,  \* task -> BOOLEAN: its waker is where the peer finds it
          wakes    \* task -> the peer still has to be woken by it
vars == <<idx, st, woken, stored, wakes>>

Tasks == {"P", "C"}
Peer(t) == IF t = "P" THEN "C" ELSE "P"
Can(t) == IF t = "P" THEN idx["P"] - idx["C"] < L - 1 ELSE idx["C"] < idx["P"]
Finished(t) == idx[t] = N

Init == /\ idx = [t \in Tasks |-> 0] /\ st = [t \in Tasks |-> "ready"] /\ woken = [t \in Tasks |-> FALSE]
        /\ stored = [t \in Tasks |-> FALSE] /\ wakes = [t \in Tasks |-> FALSE]

Set(t, s) == st' = [st EXCEPT ![t] = s]

Attempt(t) ==
    /\ st[t] \in {"ready", "second"} /\ ~wakes[t] /\ ~Finished(t)
    /\ IF Can(t) THEN /\ idx' = [idx EXCEPT ![t] = @ + 1] /\ Set(t, "ready")
                      /\ wakes' = [wakes EXCEPT ![t] = Mode \in {"peer", "peer2"}]
                      /\ UNCHANGED <<woken, stored>>
       ELSE /\ Set(t, IF st[t] = "ready" THEN (IF Mode = "peer" THEN "pend" ELSE "register") ELSE (IF Mode = "peer2" THEN "parked" ELSE "pend"))
            /\ UNCHANGED <<idx, woken, stored, wakes>>
Register(t) == /\ st[t] = "register" /\ Set(t, "second")
               /\ stored' = [stored EXCEPT ![t] = TRUE] /\ UNCHANGED <<idx, woken, wakes>>
Pend(t) == /\ st[t] = "pend" /\ Set(t, "parked")
           /\ woken' = [woken EXCEPT ![t] = @ \/ Mode = "self"]
           /\ stored' = [stored EXCEPT ![t] = TRUE] /\ UNCHANGED <<idx, wakes>>
\* after publishing: wake whoever left a waker
WakePeer(t) == /\ wakes[t]
               /\ wakes' = [wakes EXCEPT ![t] = FALSE]
               /\ woken' = [woken EXCEPT ![Peer(t)] = @ \/ stored[Peer(t)]]
               /\ stored' = [stored EXCEPT ![Peer(t)] = FALSE]
               /\ UNCHANGED <<idx, st>>
\* the executor
Poll(t) == /\ st[t] = "parked" /\ woken[t] /\ Set(t, "ready")
           /\ woken' = [woken EXCEPT ![t] = FALSE] /\ UNCHANGED <<idx, stored, wakes>>

Next == \E t \in Tasks : Attempt(t) \/ Register(t) \/ Pend(t) \/ WakePeer(t) \/ Poll(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Tasks : WF_vars(Attempt(t) \/ Register(t) \/ Pend(t) \/ WakePeer(t) \/ Poll(t))

\* C15
NeverParkedForever == \A t \in Tasks : (st[t] = "parked" /\ Can(t)) ~> (st[t] # "parked")
AllDone == <>(\A t \in Tasks : Finished(t))
=============================================================================
