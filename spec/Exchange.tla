------------------------------ MODULE Exchange ------------------------------
(* The design of a master's exchanges: one request, one reply, on a          *)
(* connection on which late, repeated or wrong replies may be waiting and    *)
(* which the peer may close.  The peer behaves in one of the ways of         *)
(* Behaviours in each of Depth exchanges; hist is what the caller sees.      *)
(*                                                                           *)
(* The safeguards can be switched off to see that they are needed:           *)
(*   Flush      throw away what is waiting before a request is sent          *)
(*   Ids        compare the transaction id (TCP)                             *)
(*   Unit Fc    compare the unit id and the function code                    *)
(*   Again      connect again when the peer has closed the connection        *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Kinds, Depth, Flush, Ids, Unit, Fc, Again, Emit
VARIABLES kind, k, conn, wait, pend, hist
vars == <<kind, k, conn, wait, pend, hist>>

All == {"ok", "exc", "silent", "unit", "fc", "short", "part", "twice", "late", "eof"}
Net == {"okeof", "rst", "refuse", "close"}
Tcp == {"id", "latein", "len"}
Behaviours == CASE kind = "tcp" -> All \cup Net \cup Tcp
                [] kind = "rtutcp" -> All \cup Net
                [] OTHER -> All

\* a frame: the exchange it answers, what is wrong with it
Frame(n, w) == [n |-> n, w |-> w]
Now(b) == CASE b \in {"ok", "okeof", "latein", "close"} -> <<Frame(k, "")>>
            [] b = "twice" -> <<Frame(k, ""), Frame(k, "")>>
            [] b = "exc" -> <<Frame(k, "exc")>>
            [] b \in {"id", "unit", "fc", "short", "part", "len"} -> <<Frame(k, b)>>
            [] b = "eof" -> <<Frame(k, "part")>>
            [] OTHER -> <<>>
After(b) == IF b = "late" THEN <<Frame(k, "")>> ELSE <<>>

\* what a call makes of the frames it finds
Outcome(fs) ==
    IF fs = <<>> THEN "fail"
    ELSE LET f == fs[1]
             own == f.n = k /\ f.w # "id"
             pass == own \/ kind # "tcp" \/ ~Ids
         IN IF ~pass THEN "fail"
            ELSE IF f.w \in {"short", "part", "len"} THEN "fail"
            ELSE IF f.w = "unit" THEN IF Unit THEN "fail" ELSE "foreign"
            ELSE IF f.w = "fc" THEN IF Fc THEN "fail" ELSE "foreign"
            ELSE IF f.w = "exc" THEN "exc"
            ELSE IF own THEN "own" ELSE "foreign"

Init == /\ kind \in Kinds /\ k = 1 /\ conn = "none" /\ wait = <<>> /\ pend = <<>> /\ hist = <<>>

Exchange(b) ==
    /\ k <= Depth /\ b \in Behaviours
    /\ LET \* "close": the peer has closed the connection before the request is sent
           gone == conn = "gone" \/ (b \in {"close", "refuse"} /\ conn = "up")
           can == (~gone \/ Again) /\ b # "refuse"
           old == IF Flush \/ gone \/ conn = "none" THEN <<>> ELSE wait
           got == old \o pend \o Now(b)
       IN /\ hist' = Append(hist, [b |-> b, out |-> IF can THEN Outcome(got) ELSE "fail"])
          /\ wait' = IF can /\ got # <<>> THEN Tail(got) \o After(b) ELSE After(b)
          /\ pend' = IF can /\ b = "latein" THEN <<Frame(k, "")>> ELSE <<>>
          /\ conn' = IF kind = "rtu" THEN "up"
                     ELSE IF ~can \/ b \in {"eof", "okeof", "rst"} THEN "gone" ELSE "up"
    /\ k' = k + 1 /\ UNCHANGED kind
Next == \E b \in All \cup Net \cup Tcp : Exchange(b)
Spec == Init /\ [][Next]_vars

\* data never comes from a reply to something else
OwnOnly == \A i \in DOMAIN hist : hist[i].out # "foreign"
\* a peer which replies properly is heard, whatever happened before.
\* A late reply to the previous request may spoil this one over TCP
Heard == \A i \in DOMAIN hist :
            /\ hist[i].b \in {"ok", "okeof", "close", "twice", "latein"} /\ (i = 1 \/ hist[i-1].b # "latein")
               => hist[i].out = "own"
            /\ hist[i].b = "exc" /\ (i = 1 \/ hist[i-1].b # "latein") => hist[i].out = "exc"
Export == (Emit /\ k = Depth + 1) => PrintT(<<"RUN", ToJson([kind |-> kind, hist |-> hist])>>)
=============================================================================
