-------------------------------- MODULE Tid ---------------------------------
(* The design of the transaction ids: a counter which rolls over, read and   *)
(* stored by several threads under a lock.  M stands for 65536.              *)
(*   Locked  reading, storing and returning exclude each other               *)
(*   Modulus the counter rolls over to 0 when it would reach this            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS W, Total, M, Locked, Modulus
VARIABLES pc, lock, counter, reg, ids
vars == <<pc, lock, counter, reg, ids>>

Init == /\ pc = [w \in W |-> "idle"] /\ lock = 0 /\ counter = 0 /\ reg = [w \in W |-> 0] /\ ids = <<>>
Busy == Cardinality({w \in W : pc[w] # "idle"})
Enter(w) == /\ pc[w] = "idle" /\ Len(ids) + Busy < Total /\ (Locked => lock = 0)
            /\ lock' = (IF Locked THEN w ELSE lock) /\ pc' = [pc EXCEPT ![w] = "read"] /\ UNCHANGED <<counter, reg, ids>>
Read(w) == /\ pc[w] = "read" /\ reg' = [reg EXCEPT ![w] = IF counter + 1 < Modulus THEN counter + 1 ELSE 0]
           /\ pc' = [pc EXCEPT ![w] = "store"] /\ UNCHANGED <<lock, counter, ids>>
Store(w) == /\ pc[w] = "store" /\ counter' = reg[w] /\ pc' = [pc EXCEPT ![w] = "return"] /\ UNCHANGED <<lock, reg, ids>>
Return(w) == /\ pc[w] = "return" /\ ids' = Append(ids, counter) /\ lock' = (IF lock = w THEN 0 ELSE lock)
             /\ pc' = [pc EXCEPT ![w] = "idle"] /\ UNCHANGED <<counter, reg>>
Next == \E w \in W : Enter(w) \/ Read(w) \/ Store(w) \/ Return(w)
Spec == Init /\ [][Next]_vars

InRange == \A i \in DOMAIN ids : ids[i] \in 0..(M - 1)
Unique == \A i, j \in DOMAIN ids : (i < j /\ j - i < M) => ids[i] # ids[j]
\* what follows, and what the sequences recorded from the code are compared with
Periodic == \A i \in DOMAIN ids : i + M \in DOMAIN ids => ids[i + M] = ids[i]
=============================================================================
