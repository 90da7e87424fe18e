------------------------------ MODULE LifeImpl ------------------------------
(* The design of Server.start(), stop() and of the server thread, one step   *)
(* per access to a shared attribute. It has to implement Life: PROPERTY      *)
(* Refines, and stop() has to return: PROPERTY Returns.                      *)
(*   go, thread  the attributes _go and _thread                              *)
(*   flag[g]     the event g;   th[i]  the program counter of thread i       *)
(*   cpc         the calling thread, ct the thread it has read               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxThreads,
          SafeStop,        \* stop() reads _thread once
          SafeMake,        \* the event is made before the thread
          SafeStart,       \* start() reads _thread before it sets the event
          Cleans           \* exit is called if main raises

VARIABLES go, thread, flag, th, own, cpc, ct, failed, asked, err, open
vars == <<go, thread, flag, th, own, cpc, ct, failed, asked, err, open>>

N == 1..MaxThreads
Init == /\ go = 1 /\ thread = 1 /\ flag = [g \in N |-> FALSE]
        /\ th = [i \in N |-> IF i = 1 THEN "new" ELSE "none"]
        /\ cpc = "idle" /\ ct = 0 /\ failed = FALSE /\ asked = FALSE /\ err = FALSE
        /\ own = 1 /\ open = [i \in N |-> FALSE]

AliveT(i) == th[i] \notin {"none", "new", "done"}
\* a thread which has replaced itself does nothing any more
Acts(i) == AliveT(i) /\ th[i] # "last"
\* --- the calling thread
Caller(from, to) == cpc = from /\ cpc' = to
StartA == /\ Caller("idle", "start2") /\ err' = FALSE
          /\ thread < MaxThreads /\ ~(AliveT(own) /\ ~failed)
          /\ IF SafeStart THEN ct' = thread /\ UNCHANGED flag ELSE flag' = [flag EXCEPT ![go] = TRUE] /\ UNCHANGED ct
          /\ UNCHANGED <<go, thread, th, failed, asked, own, open>>
StartB == /\ Caller("start2", "start3")
          /\ IF SafeStart THEN flag' = [flag EXCEPT ![go] = TRUE] /\ UNCHANGED ct ELSE ct' = thread /\ UNCHANGED flag
          /\ UNCHANGED <<go, thread, th, failed, asked, err, own, open>>
StartC == /\ Caller("start3", "idle")
          /\ IF th[ct] = "new" THEN th' = [th EXCEPT ![ct] = "init"] /\ asked' = FALSE /\ failed' = FALSE /\ UNCHANGED err /\ own' = ct
             ELSE err' = TRUE /\ UNCHANGED <<th, asked, failed, own>>
          /\ UNCHANGED <<go, thread, flag, ct, open>>
StopA == /\ Caller("idle", "stop2") /\ ct' = thread /\ asked' = TRUE /\ err' = FALSE
         /\ UNCHANGED <<go, thread, flag, th, failed, own, open>>
StopB == /\ cpc = "stop2" /\ cpc' = (IF AliveT(ct) THEN "stop3" ELSE "idle")
         /\ UNCHANGED <<go, thread, flag, th, ct, failed, asked, err, own, open>>
StopC == /\ Caller("stop3", "stop4") /\ flag' = [flag EXCEPT ![go] = FALSE]
         /\ ct' = (IF SafeStop THEN ct ELSE thread)
         /\ UNCHANGED <<go, thread, th, failed, asked, err, own, open>>
\* joining a thread which was not started raises
StopD == /\ Caller("stop4", "idle") /\ th[ct] \in {"done", "new"}
         /\ err' = (th[ct] = "new")
         /\ UNCHANGED <<go, thread, flag, th, ct, failed, asked, own, open>>

\* --- the server threads
T(i, from, to) == th[i] = from /\ th' = [th EXCEPT ![i] = to]
DoInit(i) == /\ \/ T(i, "init", "check") /\ UNCHANGED failed /\ open' = [open EXCEPT ![i] = TRUE]
                \/ T(i, "init", "make1") /\ failed' = TRUE /\ UNCHANGED open
             /\ UNCHANGED <<go, thread, flag, cpc, ct, asked, err, own>>
Check(i) == /\ T(i, "check", IF flag[go] THEN "main" ELSE "exit")
            /\ UNCHANGED <<go, thread, flag, cpc, ct, failed, asked, err, own, open>>
Main(i) == /\ \/ T(i, "main", "check") /\ UNCHANGED failed
              \/ T(i, "main", IF Cleans THEN "exit" ELSE "make1") /\ failed' = TRUE
           /\ UNCHANGED <<go, thread, flag, cpc, ct, asked, err, own, open>>
Exit(i) == /\ T(i, "exit", "make1") /\ open' = [open EXCEPT ![i] = FALSE]
           /\ UNCHANGED <<go, thread, flag, cpc, ct, failed, asked, err, own>>
NewGo == go' = go + 1 /\ UNCHANGED thread
NewThread(i) == /\ thread' = thread + 1 /\ UNCHANGED go
                /\ th' = [th EXCEPT ![i] = IF th[i] = "make1" THEN "make2" ELSE "last", ![thread + 1] = "new"]
MakeA(i) == /\ th[i] = "make1"
            /\ IF SafeMake THEN NewGo /\ th' = [th EXCEPT ![i] = "make2"] ELSE NewThread(i)
            /\ UNCHANGED <<flag, cpc, ct, failed, asked, err, own, open>>
MakeB(i) == /\ th[i] = "make2"
            /\ IF SafeMake THEN NewThread(i) ELSE NewGo /\ th' = [th EXCEPT ![i] = "last"]
            /\ UNCHANGED <<flag, cpc, ct, failed, asked, err, own, open>>
Last(i) == T(i, "last", "done") /\ UNCHANGED <<go, thread, flag, cpc, ct, failed, asked, err, own, open>>
Thread(i) == DoInit(i) \/ Check(i) \/ Main(i) \/ Exit(i) \/ MakeA(i) \/ MakeB(i) \/ Last(i)

CallerNext == StartA \/ StartB \/ StartC \/ StopA \/ StopB \/ StopC \/ StopD
Next == CallerNext \/ \E i \in N : Thread(i)
Spec == Init /\ [][Next]_vars
        /\ WF_vars(StartB \/ StartC \/ StopB \/ StopC \/ StopD) /\ \A i \in N : WF_vars(Thread(i))

-----------------------------------------------------------------------------
\* stop() is never refused, and when it has returned no thread runs
StopFine == err => cpc # "idle" \/ ~asked
Stopped == (cpc = "idle" /\ asked) => \A i \in N : ~Acts(i)
OneThread == Cardinality({i \in N : Acts(i)}) <= 1
\* start() is refused only if the thread has just ended by itself
StartFine == (err /\ ~asked) => failed
\* a start is not lost: the thread ends only if it is told to or fails
NotLost == \A i \in N : th[i] \in {"exit", "make1"} => (asked \/ failed)
\* the port is closed when a thread which was initialised has ended
Cleaned == \A i \in N : open[i] => Acts(i)
Returns == (cpc \in {"stop2", "stop3", "stop4"}) ~> (cpc = "idle")
Serves == (\E i \in N : th[i] = "init") ~> (\E i \in N : th[i] = "main" \/ failed \/ asked)
=============================================================================
