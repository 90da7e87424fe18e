------------------------------ MODULE Company ------------------------------
(* Several objects (servers with their databanks, masters, ...) in one       *)
(* process.  Each step of one may come between two steps of another one.     *)
(* What is kept by class instead of by object is what they could disturb    *)
(* each other with: the data, the query under way, the buffer of the answer. *)
(* Each of them does what Solo says, whatever the others do.                 *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Objects, Vals, Most, ClassData, ClassQuery, ClassBuffer
VARIABLES data, query, buf, stage, asked, log
vars == <<data, query, buf, stage, asked, log>>

Ops == {<<"read", 0>>} \cup {<<"write", v>> : v \in Vals}
D(o) == IF ClassData THEN 1 ELSE o
Q(o) == IF ClassQuery THEN 1 ELSE o
B(o) == IF ClassBuffer THEN 1 ELSE o

Init == /\ data = [o \in Objects |-> 0]
        /\ query = [o \in Objects |-> <<"read", 0>>]
        /\ buf = [o \in Objects |-> <<>>]
        /\ stage = [o \in Objects |-> "idle"]
        /\ asked = [o \in Objects |-> <<>>]
        /\ log = [o \in Objects |-> <<>>]

Ask(o) == /\ Len(asked[o]) < Most
          /\ \E op \in Ops : asked' = [asked EXCEPT ![o] = Append(@, op)]
          /\ UNCHANGED <<data, query, buf, stage, log>>
Parse(o) == /\ stage[o] = "idle" /\ Len(log[o]) < Len(asked[o])
            /\ query' = [query EXCEPT ![Q(o)] = asked[o][Len(log[o]) + 1]]
            /\ stage' = [stage EXCEPT ![o] = "parsed"]
            /\ UNCHANGED <<data, buf, asked, log>>
Serve(o) == /\ stage[o] = "parsed"
            /\ LET op == query[Q(o)]
                   val == IF op[1] = "write" THEN op[2] ELSE data[D(o)]
               IN data' = [data EXCEPT ![D(o)] = val] /\ buf' = [buf EXCEPT ![B(o)] = <<op, val>>]
            /\ stage' = [stage EXCEPT ![o] = "served"]
            /\ UNCHANGED <<query, asked, log>>
Reply(o) == /\ stage[o] = "served"
            /\ log' = [log EXCEPT ![o] = Append(@, buf[B(o)])]
            /\ stage' = [stage EXCEPT ![o] = "idle"]
            /\ UNCHANGED <<data, query, buf, asked>>
Next == \E o \in Objects : Ask(o) \/ Parse(o) \/ Serve(o) \/ Reply(o)
Spec == Init /\ [][Next]_vars

\* what an observer of one of them sees
Seen(o) == IF stage[o] = "served" THEN Append(log[o], buf[B(o)]) ELSE log[o]
S1 == INSTANCE Solo WITH mem <- data[D(1)], asked <- asked[1], log <- Seen(1)
S2 == INSTANCE Solo WITH mem <- data[D(2)], asked <- asked[2], log <- Seen(2)
Alone1 == S1!Spec
Alone2 == S2!Spec
=============================================================================
