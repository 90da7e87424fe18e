-------------------------------- MODULE Life --------------------------------
(* What a server (or a WorkerThread) owes to the thread which starts and     *)
(* stops it. The callbacks are init, main and exit.                          *)
(*   ph     "none"   no thread runs                                          *)
(*          "up"     a thread was started, init not yet called               *)
(*          "init"   "main"  "exit"   within a callback                      *)
(*          "loop"   between two calls of main                               *)
(*          "fin"    exit has to be called                                   *)
(*          "end"    the callbacks are over, the thread may still run        *)
(*   ask    threads which are within stop()                                  *)
(*   asked  stop() was called since the start                                *)
(*   self   the thread ended by itself because of an error                   *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Callers, WorkerRules          \* WorkerRules: exit is called even if init fails

VARIABLES ph, ask, asked, self, starting
lvars == <<ph, ask, asked, self, starting>>

LInit == ph = "none" /\ ask = {} /\ asked = FALSE /\ self = FALSE /\ starting = FALSE

\* start() is called; it may be refused if a thread runs or has just ended by itself
CallStart == /\ ~starting
             /\ starting' = TRUE /\ UNCHANGED <<ph, ask, asked, self>>
\* the new thread exists (somewhere within start())
Launch == /\ starting /\ ph \in {"none", "end"}
          /\ ph' = "up" /\ asked' = FALSE /\ self' = FALSE /\ starting' = FALSE
          /\ UNCHANGED ask
Refused == /\ starting /\ ph # "none"
           /\ starting' = FALSE /\ UNCHANGED <<ph, ask, asked, self>>

CallStop(w) == /\ w \notin ask
               /\ ask' = ask \cup {w} /\ asked' = TRUE /\ UNCHANGED <<ph, self, starting>>
\* stop() returns when there is no thread (any more)
RetStop(w) == /\ w \in ask /\ ph \in {"none", "end"}
              /\ ask' = ask \ {w} /\ ph' = "none" /\ self' = FALSE /\ UNCHANGED <<asked, starting>>

InitIn == ph = "up" /\ ph' = "init" /\ UNCHANGED <<ask, asked, self, starting>>
InitOut(ok) ==
    /\ ph = "init"
    /\ ph' = IF ok THEN "loop" ELSE IF WorkerRules THEN "fin" ELSE "end"
    /\ self' = ~ok
    /\ UNCHANGED <<ask, asked, starting>>
\* main is not called any more when a stop() has returned, as ph is "none" then
MainIn == ph = "loop" /\ ph' = "main" /\ UNCHANGED <<ask, asked, self, starting>>
MainOut(ok) ==
    /\ ph = "main" /\ ph' = (IF ok THEN "loop" ELSE "fin") /\ self' = ~ok
    /\ UNCHANGED <<ask, asked, starting>>
ExitIn == /\ ph = "fin" \/ (ph = "loop" /\ asked)
          /\ ph' = "exit" /\ UNCHANGED <<ask, asked, self, starting>>
ExitOut(ok) == ph = "exit" /\ ph' = "end" /\ UNCHANGED <<ask, asked, self, starting>>

Thread == InitIn \/ MainIn \/ ExitIn \/ \E ok \in BOOLEAN : InitOut(ok) \/ MainOut(ok) \/ ExitOut(ok)
LNext == \/ CallStart \/ Launch \/ Refused
         \/ \E w \in Callers : CallStop(w) \/ RetStop(w)
         \/ Thread
LSpec == LInit /\ [][LNext]_lvars
=============================================================================
