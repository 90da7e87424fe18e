--------------------------- MODULE TraceSimLife ---------------------------
(* Checks recorded lives of simulators against SimLife.                      *)
(* Events: make(ok) start fail(k) idle leave ask(ok) type(ok) quit close     *)
(* (done, ok), look(loop, port, up): whether the command loop runs, a client *)
(* can connect to the RPC port, which servers run; end(left): the threads    *)
(* which remain.                                                             *)
EXTENDS SimLife, TLC, Sequences, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES t, l, dead
Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)
SetOf(q) == {q[i] : i \in DOMAIN q}
Same == UNCHANGED vars

Step == CASE E.e = "make" -> Make /\ E.ok
          [] E.e = "start" -> Start
          [] E.e = "fail" -> Fail(E.k)
          [] E.e = "idle" -> Idle
          [] E.e = "leave" -> Leave
          [] E.e = "ask" -> Ask /\ E.ok
          [] E.e = "type" -> ph = "running" /\ E.ok /\ Same
          [] E.e = "quit" -> Quit /\ E.ok
          [] E.e = "close" -> Close /\ E.done /\ E.ok
          [] E.e = "look" -> /\ E.loop = (ph = "running")
                             /\ (ph \in {"running", "none", "closed"} => E.port = port)
                             /\ SetOf(E.up) = up /\ Same
          [] E.e = "end" -> E.left = 0 /\ Same
          [] OTHER -> FALSE

TInit == t \in 1..Len(Traces) /\ l = 1 /\ dead = FALSE /\ Init
Observe == /\ Live /\ Step /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
           /\ l = Len(Ev) => PrintT(<<"ACC", ToString(t)>>)
Reject == /\ Live /\ ~ENABLED Step /\ dead' = TRUE /\ UNCHANGED <<vars, t, l>>
          /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> "C29:" \o E.e, ev |-> E])>>)
TNext == Observe \/ Reject
TSpec == TInit /\ [][TNext]_<<vars, t, l, dead>>
=============================================================================
