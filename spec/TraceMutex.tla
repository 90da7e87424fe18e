----------------------------- MODULE TraceMutex -----------------------------
(* Checks what several threads using one master did on the wire and got.     *)
(* Events: call(w, a, fine), io(w), done(w, ok, v).  A call asks for the     *)
(* register a; the slave answers Answer(a) when fine and fails otherwise.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
W == 1..4
VARIABLES t, l, dead,
          call,     \* thread -> its call under way, a record, or None
          on        \* the thread whose exchange is on the wire
vars == <<t, l, dead, call, on>>

None == [a |-> -1, fine |-> FALSE, began |-> FALSE, over |-> FALSE]
Answer(a) == (7 * a + 5) % 65536
Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)

Verdict ==
    CASE E.e = "call" -> ""
      [] E.e = "io" -> IF call[E.w].a < 0 THEN "C15:stray"
                       \* an exchange has ended when another one has begun
                       ELSE IF call[E.w].over THEN "C15:mixed" ELSE ""
      [] E.e = "done" -> IF E.ok # call[E.w].fine THEN (IF E.ok THEN "C15:returned" ELSE "C15:failed")
                         ELSE IF E.ok /\ E.v # <<Answer(call[E.w].a)>> THEN "C15:answer" ELSE ""
      [] OTHER -> "C15:event"
Effect ==
    CASE E.e = "call" -> /\ call' = [call EXCEPT ![E.w] = [a |-> E.a, fine |-> E.fine, began |-> FALSE, over |-> FALSE]]
                         /\ on' = on
      [] E.e = "io" -> /\ call' = [w \in W |-> IF w = E.w THEN [call[w] EXCEPT !.began = TRUE]
                                               ELSE IF call[w].began THEN [call[w] EXCEPT !.over = TRUE] ELSE call[w]]
                       /\ on' = E.w
      [] OTHER -> call' = [call EXCEPT ![E.w] = None] /\ on' = on

Init == t \in 1..Len(Traces) /\ l = 1 /\ dead = FALSE /\ call = [w \in W |-> None] /\ on = 0
Observe == /\ Live /\ Verdict = "" /\ Effect /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
           /\ (l = Len(Ev) /\ Traces[t].end = "ok") => PrintT(<<"ACC", ToString(t)>>)
Reject == /\ Live /\ Verdict # ""
          /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> Verdict, ev |-> E])>>)
          /\ dead' = TRUE /\ UNCHANGED <<t, l, call, on>>
Next == Observe \/ Reject
Spec == Init /\ [][Next]_vars
Report == (l = 1 /\ Traces[t].end # "ok") =>
            PrintT(<<"REJECT", ToJson([t |-> t, at |-> 0, clause |-> "END:" \o Traces[t].end])>>)
=============================================================================
