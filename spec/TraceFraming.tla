---------------------------- MODULE TraceFraming ----------------------------
(* The frames which queries build and take apart.                            *)
(*   ask(q, u, p, k, b)   query q builds a request: b is the frame, if k="ok" *)
(*   get(q, b, k, u, p)   query q reads a request from the frame b           *)
(*   answer(q, p, b)      query q builds the answer to it                    *)
(*   hear(q, b, k, p)     query q reads the answer to its request            *)
(*   all(u, c)            the checksums of the frames of unit u with each    *)
(*                        pdu of one byte                                    *)
EXTENDS ModbusData, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES t, l, dead, qs
vars == <<t, l, dead, qs>>
T == Traces[t]
Ev == T.ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)
Tcp(q) == T.macs[q] = "tcp"
Q == qs[E.q]

\* the request in a frame
Read(tcp, b) == IF tcp
                THEN IF Len(b) < 7 THEN [k |-> "err"] ELSE IF Word(b, 5) # Len(b) - 6 THEN [k |-> "err"]
                     ELSE [k |-> "ok", u |-> b[7], p |-> Drop(b, 7), head |-> Take(b, 4)]
                ELSE IF ~RtuIntact(b) THEN [k |-> "err"]
                     ELSE [k |-> "ok", u |-> b[1], p |-> SubSeq(b, 2, Len(b) - 2), head |-> <<>>]
Frame(tcp, head, u, p) == IF tcp THEN head \o W(Len(p) + 1) \o <<u>> \o p ELSE RtuFrame(u, p)
\* the answer in a frame
Ans == LET x == Read(Tcp(E.q), E.b)
       IN IF x.k = "ok" /\ x.u = Q.u /\ (Tcp(E.q) => x.head = Q.head) THEN x ELSE [k |-> "err"]

Verdict ==
    CASE E.e = "ask" -> IF (E.u \in 0..255) # (E.k = "ok") THEN "C27:unit"
                        ELSE IF E.k = "ok" /\ ~(E.b = Frame(Tcp(E.q), Take(E.b, 2) \o <<0, 0>>, E.u, E.p)) THEN "C27:request" ELSE ""
      [] E.e = "get" -> LET x == Read(Tcp(E.q), E.b)
                        IN IF Tcp(E.q) /\ x.k = "ok" /\ SubSeq(x.head, 3, 4) # <<0, 0>> THEN ""      \* another protocol
                           ELSE IF x.k # E.k THEN (IF E.k = "ok" THEN "C27:accepted" ELSE "C27:refused")
                           ELSE IF E.k = "ok" /\ ~(E.u = x.u /\ E.p = x.p) THEN "C27:read" ELSE ""
      [] E.e = "answer" -> IF E.b = Frame(Tcp(E.q), Q.head, Q.u, E.p) THEN "" ELSE "C27:answer"
      [] E.e = "hear" -> IF Ans.k # E.k THEN (IF E.k = "ok" THEN "C27:accepted" ELSE "C27:refused")
                         ELSE IF E.k = "ok" /\ E.p # Ans.p THEN "C27:read" ELSE ""
      [] E.e = "all" -> IF \A i \in 0..255 : E.c[i+1] = CrcBytes(<<E.u, i>>) THEN "" ELSE "C27:crc"

Effect == CASE E.e = "ask" /\ E.k = "ok" -> [qs EXCEPT ![E.q] = [u |-> E.u, head |-> IF Tcp(E.q) THEN Take(E.b, 4) ELSE <<>>]]
            [] E.e = "get" /\ E.k = "ok" -> [qs EXCEPT ![E.q] = [u |-> E.u, head |-> IF Tcp(E.q) THEN Take(E.b, 4) ELSE <<>>]]
            [] OTHER -> qs

Observe ==
    /\ Live /\ Verdict = ""
    /\ qs' = Effect /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
    /\ (l = Len(Ev) /\ T.end = "ok") => PrintT(<<"ACC", ToString(t)>>)
Reject ==
    /\ Live /\ Verdict # ""
    /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> Verdict, ev |-> E])>>)
    /\ dead' = TRUE /\ UNCHANGED <<t, l, qs>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ dead = FALSE /\ qs = [q \in 1..Len(Traces[t].macs) |-> [u |-> 0, head |-> <<>>]]
Next == Observe \/ Reject
Spec == Init /\ [][Next]_vars
Report == (l = 1 /\ T.end # "ok") => PrintT(<<"REJECT", ToJson([t |-> t, at |-> 0, clause |-> "END:" \o T.end])>>)
=============================================================================
