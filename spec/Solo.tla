-------------------------------- MODULE Solo --------------------------------
(* One object at work by itself: it answers its requests one after the      *)
(* other.                                                                    *)
EXTENDS Naturals, Sequences
CONSTANTS Vals
VARIABLES mem, asked, log
vars == <<mem, asked, log>>

Ops == {<<"read", 0>>} \cup {<<"write", v>> : v \in Vals}
Init == mem = 0 /\ asked = <<>> /\ log = <<>>
Ask == \E op \in Ops : asked' = Append(asked, op) /\ UNCHANGED <<mem, log>>
Do == /\ Len(log) < Len(asked)
      /\ LET op == asked[Len(log) + 1] IN
           /\ mem' = IF op[1] = "write" THEN op[2] ELSE mem
           /\ log' = Append(log, <<op, IF op[1] = "write" THEN op[2] ELSE mem>>)
      /\ UNCHANGED asked
Next == Ask \/ Do
Spec == Init /\ [][Next]_vars
=============================================================================
