------------------------------- MODULE MCLife -------------------------------
(* Life explored on its own: every order of calls and callbacks it allows    *)
(* satisfies these properties.                                               *)
EXTENDS Life
VARIABLES inits, exits        \* calls of init and exit since the thread was started
mvars == <<ph, ask, asked, self, starting, inits, exits>>
cnt == <<inits, exits>>
MCInit == LInit /\ inits = 0 /\ exits = 0
Begin == Launch /\ inits' = 0 /\ exits' = 0
DoInit == InitIn /\ inits' = inits + 1 /\ exits' = exits
DoExit == ExitIn /\ exits' = exits + 1 /\ inits' = inits
DoMain == MainIn /\ UNCHANGED cnt
Outs == (\E ok \in BOOLEAN : InitOut(ok) \/ MainOut(ok) \/ ExitOut(ok)) /\ UNCHANGED cnt
Back(w) == RetStop(w) /\ UNCHANGED cnt
Work == DoInit \/ DoExit \/ DoMain \/ Outs
MCNext == \/ Begin \/ Work
          \/ (CallStart /\ UNCHANGED cnt) \/ (Refused /\ UNCHANGED cnt)
          \/ \E w \in Callers : Back(w) \/ (CallStop(w) /\ UNCHANGED cnt)
Fair == /\ WF_mvars(Work)
        /\ SF_mvars(DoExit)
        /\ \A w \in Callers : SF_mvars(Back(w))
Spec == MCInit /\ [][MCNext]_mvars /\ Fair
Once == inits <= 1 /\ exits <= 1
Over == (ph = "end" /\ WorkerRules) => (inits = 1 /\ exits = 1)
\* whoever stops comes back, unless a thread is started meanwhile (which resets asked)
Returns == \A w \in Callers : (w \in ask /\ asked) ~> (w \notin ask \/ ~asked)
=============================================================================
