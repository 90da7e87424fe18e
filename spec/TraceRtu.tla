------------------------------ MODULE TraceRtu ------------------------------
(* Checks what was recorded on the line of an RTU server.                    *)
(*   in     bytes arrive             sil    the line falls silent            *)
(*   again  bytes of the next frame arrive while a request is handled        *)
(*   out    bytes are written        quiet  the silence was long enough      *)
(*   fault  the port fails to read   healthy  no faults follow               *)
(* and accesses through the Python interface.                                *)
EXTENDS Databank, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)

VARIABLES t, l, d,
          buf,      \* bytes since the last silence
          prev,     \* what has come before and is not handled yet: <<>> or <<frame>>
          owe,      \* requests carried out, answers not yet sent
          flt,      \* the port failed since the last long silence
          late,     \* new bytes came while a request was handled
          dead
vars == <<t, l, d, buf, prev, owe, flt, late, dead>>

Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)

Serve1(x, f) == IF ~RtuIntact(f) THEN [d |-> x, k |-> "none", r |-> Nothing]
                ELSE Serve(x, f[1], SubSeq(f, 2, Len(f) - 2))

\* --- not observed: the frame is carried out
Carry ==
    /\ Live /\ owe = <<>>
    /\ E.e \in {"out", "api", "quiet", "again", "in"}
    /\ prev # <<>>
    /\ LET f == prev[1]  x == Serve1(d, f) IN
       /\ d' = x.d
       /\ owe' = IF x.k = "none" THEN <<>> ELSE <<[k |-> x.k, u |-> f[1], p |-> SubSeq(f, 2, Len(f) - 2), r |-> x.r]>>
       /\ late' = (late /\ x.k # "none")
    /\ prev' = <<>>
    /\ UNCHANGED <<t, l, buf, flt, dead>>
\* an answer is not sent when bytes of a new request are waiting
Withhold ==
    /\ Live /\ late /\ owe # <<>>
    /\ owe' = <<>> /\ late' = FALSE
    /\ UNCHANGED <<t, l, d, buf, prev, flt, dead>>
\* a frame during which the port failed may be lost, as may the answer
Lose ==
    /\ Live /\ flt /\ (prev # <<>> \/ owe # <<>>)
    /\ prev' = <<>> /\ owe' = <<>>
    /\ UNCHANGED <<t, l, d, buf, flt, late, dead>>
\* the port failed, and what came before that was taken for a frame
Split ==
    /\ Live /\ flt /\ buf # <<>> /\ prev = <<>> /\ E.e \in {"in", "sil", "out", "api"}
    /\ RtuIntact(buf)
    /\ prev' = <<buf>> /\ buf' = <<>>
    /\ UNCHANGED <<t, l, d, owe, flt, late, dead>>

\* --- events
R(d2, b2, p2, o2, x2, l2) == [d |-> d2, buf |-> b2, prev |-> p2, owe |-> o2, flt |-> x2, late |-> l2, bad |-> ""]
Same == R(d, buf, prev, owe, flt, late)
No(why) == [Same EXCEPT !.bad = why]

DoOut(e) ==
    IF owe = <<>> THEN No("C09:unasked")
    ELSE LET o == owe[1] IN
         IF ~RtuIntact(e.b) THEN No("C09:crc")
         ELSE IF e.b[1] # o.u THEN No("C09:address")
         ELSE IF o.k = "any" \/ Answers(o.p, o.r, SubSeq(e.b, 2, Len(e.b) - 2))
         THEN [Same EXCEPT !.owe = <<>>, !.late = FALSE]
         ELSE No("C09:reply")
DoApi(e) ==
    LET r == Api(d.objs[e.obj], e) IN
    IF (r.k = "ok") # e.ok THEN No("API:" \o e.op)
    ELSE IF e.op = "get" /\ e.ok /\ e.v # r.v THEN No("C09:data")
    ELSE [Same EXCEPT !.d.objs[e.obj] = r.s]
DoQuiet ==
    IF prev # <<>> \/ (owe # <<>> /\ owe[1].k = "reply" /\ ~flt) THEN No("C09:unanswered")
    ELSE R(d, <<>>, <<>>, <<>>, FALSE, FALSE)

Step(e) ==
    CASE e.e = "addslave" -> [Same EXCEPT !.d = AddSlave(d, e.id, e.sig, e.cls).d]
      [] e.e = "api" -> DoApi(e)
      [] e.e = "in" -> [Same EXCEPT !.buf = @ \o e.b]
      [] e.e = "sil" -> IF prev # <<>> THEN No("C09:unanswered")
                        ELSE [Same EXCEPT !.prev = IF buf = <<>> THEN <<>> ELSE <<buf>>, !.buf = <<>>]
      [] e.e = "again" -> [Same EXCEPT !.late = (prev # <<>> \/ owe # <<>>)]
      [] e.e = "out" -> DoOut(e)
      [] e.e = "fault" -> [Same EXCEPT !.flt = TRUE]
      [] e.e = "quiet" -> DoQuiet
      [] e.e = "healthy" -> Same

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ d = NoSlaves /\ buf = <<>> /\ prev = <<>> /\ owe = <<>>
        /\ flt = FALSE /\ late = FALSE /\ dead = FALSE
Observe ==
    /\ Live
    /\ LET r == Step(E) IN
       IF r.bad # ""
       THEN /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> r.bad, ev |-> E])>>)
            /\ dead' = TRUE /\ UNCHANGED <<t, l, d, buf, prev, owe, flt, late>>
       ELSE /\ d' = r.d /\ buf' = r.buf /\ prev' = r.prev /\ owe' = r.owe /\ flt' = r.flt
            /\ late' = r.late /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
            /\ (l = Len(Ev) /\ Traces[t].end = "ok") => PrintT(<<"ACC", ToString(t)>>)
Next == Observe \/ Carry \/ Withhold \/ Lose \/ Split
Spec == Init /\ [][Next]_vars

Report == (l = 1 /\ Traces[t].end # "ok") =>
            PrintT(<<"REJECT", ToJson([t |-> t, at |-> 0, clause |-> "END:" \o Traces[t].end])>>)
Inv == \A i \in 1..Len(d.objs) : Disjoint(d.objs[i])
=============================================================================
