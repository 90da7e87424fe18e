------------------------------- MODULE Mutex --------------------------------
(* The design of one master used by several threads: a call takes the lock,  *)
(* throws away what is waiting, sends, and takes the next reply, which may   *)
(* not come.  Replies come in the order of the requests.                     *)
(*   Locked   calls exclude each other                                       *)
(*   Releases the lock is released also when the exchange fails              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS W, Calls, Locked, Releases
VARIABLES pc,      \* where each thread is
          left,    \* calls it still has to make
          lock,    \* 0 or the thread which has it
          wire,    \* requests under way
          inq,     \* replies waiting
          got      \* threads whose call returned: the owner of the reply each took, 0 when it failed
vars == <<pc, left, lock, wire, inq, got>>

Init == /\ pc = [w \in W |-> "idle"] /\ left = [w \in W |-> Calls] /\ lock = 0
        /\ wire = <<>> /\ inq = <<>> /\ got = [w \in W |-> w]
Enter(w) == /\ pc[w] = "idle" /\ left[w] > 0 /\ (Locked => lock = 0)
            /\ lock' = (IF Locked THEN w ELSE lock) /\ pc' = [pc EXCEPT ![w] = "flush"]
            /\ left' = [left EXCEPT ![w] = @ - 1] /\ UNCHANGED <<wire, inq, got>>
Clear(w) == /\ pc[w] = "flush" /\ inq' = <<>> /\ pc' = [pc EXCEPT ![w] = "send"] /\ UNCHANGED <<left, lock, wire, got>>
Send(w) == /\ pc[w] = "send" /\ wire' = Append(wire, w) /\ pc' = [pc EXCEPT ![w] = "recv"] /\ UNCHANGED <<left, lock, inq, got>>
\* the slave answers or does not
Answer(yes) == /\ wire # <<>> /\ wire' = Tail(wire) /\ inq' = (IF yes THEN Append(inq, wire[1]) ELSE inq)
               /\ UNCHANGED <<pc, left, lock, got>>
Unlock(w, ok) == lock' = IF lock = w /\ (ok \/ Releases) THEN 0 ELSE lock
Recv(w) == /\ pc[w] = "recv" /\ inq # <<>> /\ inq' = Tail(inq) /\ got' = [got EXCEPT ![w] = inq[1]]
           /\ pc' = [pc EXCEPT ![w] = "idle"] /\ Unlock(w, TRUE) /\ UNCHANGED <<left, wire>>
\* the timeout comes after the slave has had its time
Fail(w) == /\ pc[w] = "recv" /\ inq = <<>> /\ (\A i \in DOMAIN wire : wire[i] # w)
           /\ pc' = [pc EXCEPT ![w] = "idle"] /\ got' = [got EXCEPT ![w] = 0] /\ Unlock(w, FALSE) /\ UNCHANGED <<left, wire, inq>>
Next == \/ \E w \in W : Enter(w) \/ Clear(w) \/ Send(w) \/ Recv(w) \/ Fail(w)
        \/ \E yes \in BOOLEAN : Answer(yes)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OwnReply == \A w \in W : got[w] \in {0, w}
OneAtATime == Cardinality({w \in W : pc[w] \in {"send", "recv"}}) <= 1
Finish == <>(\A w \in W : left[w] = 0 /\ pc[w] = "idle")
=============================================================================
