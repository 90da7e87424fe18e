----------------------------- MODULE TraceMaster ----------------------------
(* Checks recorded exchanges of a master with a scripted peer: calls of      *)
(* execute, what they put on the wire, what arrives and what they return.    *)
(* Each trace has                                                            *)
(*   kind  "tcp", "rtu" or "rtutcp"      to   the timeout in ms              *)
(*   echo  the line echoes what is sent  sw   software timeout (rtu)         *)
(*   lim   ms within which a call ends after its start or the last arrival   *)
(* (what arrives after the longest frame that can come does not count)       *)
EXTENDS Codec, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)

VARIABLES t, l, x, dead
vars == <<t, l, x, dead>>

T == Traces[t]
Ev == T.ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)

Idle == [busy |-> FALSE]
None == [fc |-> -1]
NewX == [up |-> TRUE,       \* the peer accepts connections, the port works
         busy |-> FALSE,    \* a call is under way
         c |-> None,        \* the call
         sent |-> <<>>,     \* what it has sent
         n |-> 0,           \* how often
         r |-> <<>>,        \* what arrived since then
         clean |-> FALSE,   \* nothing failed during the call
         tight |-> TRUE,    \* everything arrived in time
         stuck |-> 0,       \* until when the peer does not read
         start |-> 0, last |-> 0, at |-> 0]

\* after so many bytes an exchange is over, whatever goes on arriving
Most == IF T.kind = "tcp" THEN 6 + 65535 ELSE Max(256, x.c.exp) + Len(x.sent)

-----------------------------------------------------------------------------
\* the frame a call has to send; the transaction id of TCP is free
Adu(c, b) == IF T.kind = "tcp" THEN Take(b, 2) \o <<0, 0>> \o W(Len(EncodePdu(c)) + 1) \o <<c.slave>> \o EncodePdu(c)
             ELSE RtuFrame(c.slave, EncodePdu(c))

\* the bytes which count as reply
Heard == IF T.echo THEN Drop(x.r, Len(x.sent)) ELSE x.r
\* something else than the echo came first: there is no telling what is the echo and what the reply
Strange == T.echo /\ \E i \in 1..Min(Len(x.r), Len(x.sent)) : x.r[i] # x.sent[i]

\* the reply read from the first k bytes heard, or Bad
TcpReply(h) == IF Len(h) < 7 \/ Len(h) < 6 + Word(h, 5) \/ Word(h, 5) < 1 THEN Bad
               ELSE IF SubSeq(h, 1, 4) # SubSeq(x.sent, 1, 4) \/ h[7] # x.c.slave THEN Bad
               ELSE DecodePdu(x.c, SubSeq(h, 8, 6 + Word(h, 5)))
RtuReply(h) == IF RtuIntact(h) /\ h[1] = x.c.slave THEN DecodePdu(x.c, SubSeq(h, 2, Len(h) - 2)) ELSE Bad

\* what is heard so far may be the beginning of a reply
Waiting == \/ Heard = <<>>
           \/ /\ T.kind = "tcp" /\ (Len(Heard) < 6 \/ Len(Heard) < 6 + Word(Heard, 5))
              /\ \A i \in 1..Min(4, Len(Heard)) : Heard[i] = x.sent[i]
\* what may be returned
Possible == IF x.n = 0 THEN {}
            ELSE IF T.kind = "tcp" THEN {TcpReply(Heard)}
            ELSE {RtuReply(Take(Heard, k)) : k \in IntactLens(Heard, 260)}
\* a frame which is a reply to the request, were it not for its length or byte count
Akin(h) == /\ x.n > 0
           /\ IF T.kind = "tcp"
              THEN Len(h) >= 8 /\ SubSeq(h, 1, 4) = SubSeq(x.sent, 1, 4) /\ h[7] = x.c.slave /\ h[8] = x.sent[8]
              ELSE \E k \in IntactLens(h, 260) : h[1] = x.c.slave /\ h[2] = x.sent[2]
\* what has to be returned or raised when everything is well, else Bad
Required ==
    IF ~x.clean \/ x.n = 0 \/ ~x.tight \/ Strange THEN Bad
    ELSE LET h == Heard
             res == IF T.kind = "tcp" THEN TcpReply(h) ELSE IF Len(h) <= 256 THEN RtuReply(h) ELSE Bad
             plain == [x.c EXCEPT !.raw = FALSE, !.fmt = [le |-> FALSE, items |-> <<>>]]
         IN IF res.k = "bad" THEN Bad
            ELSE IF T.kind = "tcp" \/ res.k = "exc" THEN res
            \* over RTU the length of the reply has to be the one which is awaited
            ELSE IF x.c.exp \in {-1, Len(h)} /\ (x.c.fc = 0 \/ DecodePdu(plain, SubSeq(h, 2, Len(h) - 2)).k = "ok")
                 THEN res ELSE Bad
Early == x.clean /\ ~Strange /\ x.n > 0 /\ x.tight /\ 10 * (E.tm - x.last) < 8 * T.to /\ Waiting
\* nothing more can belong to the response, and that can be told
Whole == T.kind = "tcp" \/ x.c.exp = Len(Heard) \/ (x.c.exp = -1 /\ x.c.fc \notin {0, 43})
Timely == /\ E.tm <= Max(x.start, x.at) + T.lim
          \* the software timeout counts from the request on, whatever arrives
          /\ (T.sw /\ ~T.echo /\ x.n > 0) => E.tm <= x.last + T.lim

\* "" if the event is right, else the violated clause
Verdict ==
    CASE E.e = "sent" -> IF ~x.busy THEN "C13:unasked"
                         ELSE IF ~Expressible(x.c) THEN "C13:inexpressible"
                         ELSE IF x.n > 0 THEN "C13:twice"
                         ELSE IF E.b # Adu(x.c, E.b) THEN "C13:request" ELSE ""
      \* a part of a frame, and no more of it during this call
      [] E.e = "part" -> IF ~x.busy THEN "C13:unasked" ELSE IF x.clean THEN "C13:request" ELSE ""
      [] E.e = "ret" -> IF x.n = 0 THEN "C13:nothing sent"
                        ELSE IF [k |-> "ok", v |-> E.v] \notin Possible
                             THEN IF \E p \in Possible : p.k = "ok" THEN "C14:data"
                                  ELSE IF Akin(Heard) THEN "C14:fit"
                                  ELSE IF T.kind = "tcp" THEN "C11:data" ELSE "C12:data"
                        ELSE IF Required.k = "exc" THEN "C14:exception"
                        ELSE IF ~Timely THEN "C17:late"
                        ELSE IF Required.k = "ok" /\ Whole /\ E.tm > x.at + 20 THEN "C17:slow" ELSE ""
      [] E.e = "exc" -> IF x.n = 0 /\ Expressible(x.c) /\ x.clean THEN "C17:not sent"
                        ELSE IF Required.k = "ok" THEN "C14:raised"
                        \* the reply may still come in time
                        ELSE IF Early THEN "C14:early"
                        ELSE IF Required.k = "exc" /\ Required.code # E.code THEN "C14:exception"
                        ELSE IF ~Timely THEN "C17:late" ELSE ""
      [] E.e \in {"opened", "closed"} -> IF x.up /\ ~E.ok THEN "C17:" \o E.e ELSE ""
      [] OTHER -> ""

Effect ==
    CASE E.e = "call" -> [x EXCEPT !.busy = TRUE, !.c = E.c, !.sent = <<>>, !.n = 0, !.r = <<>>, !.clean = x.up /\ E.tm >= x.stuck,
                                   !.tight = TRUE, !.start = E.tm, !.at = E.tm]
      [] E.e = "sent" -> [x EXCEPT !.sent = E.b, !.n = x.n + 1, !.r = <<>>, !.last = E.tm, !.at = E.tm]
      \* what arrives while the request is being sent may come before or after the flush
      [] E.e = "in" -> IF ~x.busy THEN x
                       ELSE IF x.n = 0 THEN [x EXCEPT !.clean = FALSE]
                       ELSE [x EXCEPT !.r = x.r \o E.b, !.last = IF T.sw THEN x.last ELSE E.tm,
                                      !.at = IF Len(x.r) < Most THEN E.tm ELSE @,
                                      !.tight = x.tight /\ 10 * (E.tm - x.last) <= 8 * T.to]
      [] E.e = "lost" -> [x EXCEPT !.clean = FALSE]
      [] E.e = "down" -> [x EXCEPT !.up = FALSE, !.clean = FALSE]
      \* the peer does not take what is sent until then
      [] E.e = "stuck" -> [x EXCEPT !.stuck = E.till]
      [] E.e = "up" -> [x EXCEPT !.up = TRUE]
      [] E.e \in {"ret", "exc"} -> [x EXCEPT !.busy = FALSE]
      [] OTHER -> x

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ dead = FALSE /\ x = NewX
Observe == /\ Live /\ Verdict = ""
           /\ x' = Effect /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
           /\ (l = Len(Ev) /\ T.end = "ok") => PrintT(<<"ACC", ToString(t)>>)
Reject == /\ Live /\ Verdict # ""
          /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> Verdict, ev |-> E, c |-> x.c, r |-> x.r])>>)
          /\ dead' = TRUE /\ UNCHANGED <<t, l, x>>
Next == Observe \/ Reject
Spec == Init /\ [][Next]_vars
Report == (l = 1 /\ T.end # "ok") =>
            PrintT(<<"REJECT", ToJson([t |-> t, at |-> 0, clause |-> "END:" \o T.end])>>)
=============================================================================
