------------------------------ MODULE Answers -------------------------------
(* The design of how the simulator answers: the interfaces (the console, the *)
(* RPC server) put commands in one queue, the simulator takes them one by    *)
(* one and answers, and an interface may stop waiting for an answer.         *)
(*   Where   the queue of the answer: one of the "command", one of the       *)
(*           "interface", or one "shared" by all                             *)
(*   Gives   interfaces stop waiting after a while                           *)
(*   Dies    an interface which stopped waiting does not go on               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS P, Calls, Where, Gives, Dies
VARIABLES pc,     \* idle, wait, or dead
          num,    \* commands given by each
          inq,    \* commands waiting: <<interface, number>>
          busy,   \* the command which is carried out, or <<>>
          outq,   \* where -> answers waiting
          got     \* each interface: the last <<asked, answered>>
vars == <<pc, num, inq, busy, outq, got>>

Place(c) == CASE Where = "command" -> c [] Where = "interface" -> <<c[1], 0>> [] OTHER -> <<0, 0>>
Places == {Place(<<p, n>>) : p \in P, n \in 1..Calls}
Init == /\ pc = [p \in P |-> "idle"] /\ num = [p \in P |-> 0] /\ inq = <<>> /\ busy = <<>>
        /\ outq = [q \in Places |-> <<>>] /\ got = [p \in P |-> <<0, 0>>]
Mine(p) == <<p, num[p]>>
Put(p) == /\ pc[p] = "idle" /\ num[p] < Calls /\ num' = [num EXCEPT ![p] = @ + 1] /\ pc' = [pc EXCEPT ![p] = "wait"]
          /\ inq' = Append(inq, <<p, num[p] + 1>>) /\ UNCHANGED <<busy, outq, got>>
Take == /\ busy = <<>> /\ inq # <<>> /\ busy' = inq[1] /\ inq' = Tail(inq) /\ UNCHANGED <<pc, num, outq, got>>
Answer == /\ busy # <<>> /\ outq' = [outq EXCEPT ![Place(busy)] = Append(@, busy)] /\ busy' = <<>> /\ UNCHANGED <<pc, num, inq, got>>
Get(p) == /\ pc[p] = "wait" /\ outq[Place(Mine(p))] # <<>>
          /\ got' = [got EXCEPT ![p] = <<num[p], IF outq[Place(Mine(p))][1][1] = p THEN outq[Place(Mine(p))][1][2] ELSE 0>>]
          /\ outq' = [outq EXCEPT ![Place(Mine(p))] = Tail(@)] /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<num, inq, busy>>
Stop(p) == /\ Gives /\ pc[p] = "wait" /\ outq[Place(Mine(p))] = <<>> /\ pc' = [pc EXCEPT ![p] = IF Dies THEN "dead" ELSE "idle"]
           /\ UNCHANGED <<num, inq, busy, outq, got>>
Next == Take \/ Answer \/ \E p \in P : Put(p) \/ Get(p) \/ Stop(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A p \in P : WF_vars(Put(p)) /\ WF_vars(Get(p))

\* everyone gets the answer to what they asked
Own == \A p \in P : got[p][1] = got[p][2]
\* and everything is asked and answered
Done == <>[](\A p \in P : num[p] = Calls /\ pc[p] = "idle")
Carried == <>[](inq = <<>> /\ busy = <<>>)
=============================================================================
