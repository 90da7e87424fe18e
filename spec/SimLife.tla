------------------------------ MODULE SimLife ------------------------------
(* The life of the simulators of one process, one after the other.  A        *)
(* simulator is made, started (or a server refuses to start), gets commands  *)
(* from the console and RPC clients until one of them is quit, and is        *)
(* closed, whether it was started or not; then another one can be made.      *)
(* RPC clients may be connected without sending anything.                    *)
(*   ph     none made failed running ended closed                            *)
(*   port   the RPC port is held by the simulator                            *)
(*   up     the servers which run                                            *)
(*   idle   clients connected which have not sent their command              *)
(*   calls  RPC calls were answered: the port remembers their connections    *)
(*   stuck  a call or close() waits for ever                                 *)
(* The constants are the design: Frees, the RPC port is released by close(); *)
(* Reuses, connections which have ended do not keep it; Apart, a client does *)
(* not wait for what another one has not sent; Looks, close() only waits for *)
(* threads which were started.  As they must be: all TRUE.                   *)
EXTENDS Naturals, FiniteSets

CONSTANTS N, MaxIdle, MaxLives, Frees, Reuses, Apart, Looks

VARIABLES ph, port, up, idle, calls, stuck, lives, refused
vars == <<ph, port, up, idle, calls, stuck, lives, refused>>

Servers == 1..N
Init == /\ ph = "none" /\ port = FALSE /\ up = {} /\ idle = 0 /\ calls = FALSE /\ stuck = FALSE
        /\ lives = 0 /\ refused = FALSE

Make == /\ ph \in {"none", "closed"} /\ lives < MaxLives
        /\ IF port \/ (calls /\ ~Reuses)
           THEN refused' = TRUE /\ UNCHANGED <<ph, port>>
           ELSE ph' = "made" /\ port' = TRUE /\ UNCHANGED refused
        /\ lives' = lives + 1 /\ UNCHANGED <<up, idle, calls, stuck>>
Start == /\ ph = "made" /\ ph' = "running" /\ up' = Servers
         /\ UNCHANGED <<port, idle, calls, stuck, lives, refused>>
\* server k refuses: some of the others run
Fail(k) == /\ ph = "made" /\ ph' = "failed" /\ up' \in SUBSET (Servers \ {k})
           /\ UNCHANGED <<port, idle, calls, stuck, lives, refused>>
Idle == /\ ph = "running" /\ idle < MaxIdle /\ idle' = idle + 1
        /\ UNCHANGED <<ph, port, up, calls, stuck, lives, refused>>
Leave == /\ idle > 0 /\ idle' = idle - 1
         /\ UNCHANGED <<ph, port, up, calls, stuck, lives, refused>>
Ask == /\ ph = "running"
       /\ IF idle > 0 /\ ~Apart THEN stuck' = TRUE /\ UNCHANGED calls ELSE calls' = TRUE /\ UNCHANGED stuck
       /\ UNCHANGED <<ph, port, up, idle, lives, refused>>
Quit == /\ ph = "running" /\ ph' = "ended"
        /\ UNCHANGED <<port, up, idle, calls, stuck, lives, refused>>
Close == /\ ph \in {"made", "failed", "ended"}
         /\ IF (ph # "ended" /\ ~Looks) \/ (idle > 0 /\ ~Apart)
            THEN stuck' = TRUE /\ UNCHANGED <<ph, port, up>>
            ELSE ph' = "closed" /\ up' = {} /\ port' = (port /\ ~Frees) /\ UNCHANGED stuck
         /\ UNCHANGED <<idle, calls, lives, refused>>

Next == Make \/ Start \/ (\E k \in Servers : Fail(k)) \/ Idle \/ Leave \/ Ask \/ Quit \/ Close
Spec == Init /\ [][Next]_vars

Inv == /\ ~stuck                                    \* nobody waits for ever
       /\ ~refused                                  \* another one can always be made
       /\ ph = "closed" => ~port /\ up = {}         \* nothing is left over
       /\ ph = "running" => port /\ up = Servers
=============================================================================
