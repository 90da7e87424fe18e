----------------------------- MODULE TraceLife ------------------------------
(* Checks recorded lives of servers and worker threads against Life.         *)
(* cb: TRUE when the callbacks are observed (custom servers and workers);    *)
(* otherwise (TCP, RTU) the thread is only seen through what it serves.      *)
EXTENDS Life, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES t, l, dead,
          doomed,     \* an error was injected which ends the thread (no callbacks observed)
          mains       \* main was called since init
vars == <<ph, ask, asked, self, starting, t, l, dead, doomed, mains>>

Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)
Cb == Traces[t].cb
Wk == Traces[t].worker

Pass(a) == a /\ UNCHANGED <<doomed, mains>>
\* with callbacks
CbStep ==
    CASE E.e = "start" -> Pass(CallStart)
      [] E.e = "started" -> IF E.ok THEN Pass(~starting /\ UNCHANGED lvars) ELSE Pass(Refused)
      [] E.e = "stop" -> Pass(CallStop(E.w))
      [] E.e = "stopped" -> Pass(E.ok /\ E.ended /\ RetStop(E.w))
      [] E.e = "initin" -> InitIn /\ mains' = 0 /\ UNCHANGED doomed
      [] E.e = "initout" -> Pass(ph = "init" /\ ph' = (IF E.ok THEN "loop" ELSE IF Wk THEN "fin" ELSE "end")
                                 /\ self' = ~E.ok /\ UNCHANGED <<ask, asked, starting>>)
      [] E.e = "mainin" -> MainIn /\ mains' = 1 /\ UNCHANGED doomed
      [] E.e = "mainout" -> Pass(MainOut(E.ok))
      [] E.e = "exitin" -> Pass(ExitIn)
      [] E.e = "exitout" -> Pass(ExitOut(E.ok))
      \* a long time has passed
      [] E.e = "quiet" -> Pass(~starting /\ ask = {} /\
                               (ph \in {"none", "end"} \/ (ph \in {"loop", "main"} /\ ~asked /\ mains > 0)) /\ UNCHANGED lvars)
      [] OTHER -> FALSE

\* without: "loop" while it should serve, "none" when it is stopped
Opaque(p, dm) == /\ ph' = p /\ doomed' = dm /\ UNCHANGED <<ask, asked, self, starting, mains>>
NoCbStep ==
    CASE E.e = "start" -> Opaque(ph, doomed)
      [] E.e = "started" -> IF E.ok THEN Opaque("loop", doomed /\ ph = "none")
                            ELSE ph = "loop" /\ doomed /\ Opaque(ph, doomed)
      [] E.e = "fault" -> Opaque(ph, TRUE)
      [] E.e = "stop" -> Opaque(ph, doomed)
      [] E.e = "stopped" -> E.ok /\ E.ended /\ E.closed /\ Opaque("none", FALSE)
      [] E.e = "probe" -> Opaque(ph, doomed) /\
                          IF ph = "none" THEN ~E.served ELSE doomed \/ (E.served /\ E.good)
      [] E.e = "quiet" -> Opaque(ph, doomed) /\ (doomed => E.closed)
      [] OTHER -> FALSE

Step == IF Cb THEN CbStep ELSE NoCbStep

Clause == (IF Wk THEN "C22:" ELSE "C10:") \o E.e
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ dead = FALSE /\ doomed = FALSE /\ mains = 0 /\ LInit
Observe == /\ Live /\ Step
           /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
           /\ (l = Len(Ev) /\ Traces[t].end = "ok") => PrintT(<<"ACC", ToString(t)>>)
\* the thread comes into being within start()
Begin == /\ Live /\ Cb /\ Launch /\ UNCHANGED <<t, l, dead, doomed, mains>>
Reject == /\ Live /\ ~ENABLED Step /\ ~(Cb /\ starting /\ ph \in {"none", "end"})
          /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> Clause, ev |-> E])>>)
          /\ dead' = TRUE /\ UNCHANGED <<ph, ask, asked, self, starting, t, l, doomed, mains>>
Next == Observe \/ Begin \/ Reject
Spec == Init /\ [][Next]_vars
Report == (l = 1 /\ Traces[t].end # "ok") =>
            PrintT(<<"REJECT", ToJson([t |-> t, at |-> 0, clause |-> "END:" \o Traces[t].end])>>)
=============================================================================
