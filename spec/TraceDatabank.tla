--------------------------- MODULE TraceDatabank ----------------------------
(* Checks recorded histories of a databank and its slaves.  The file named   *)
(* by TRACEFILE is a list of traces [miss, ev]; every event of ev is one     *)
(* completed call with its observed result.                                  *)
EXTENDS Databank, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)

VARIABLES t, l, d, last, dead
vars == <<t, l, d, last, dead>>

Good(d2, tag) == [d |-> d2, bad |-> "", tag |-> tag]
Bad(d2, why) == [d |-> d2, bad |-> why, tag |-> ""]

\* --- one event
DoAddSlave(e) ==
    LET r == AddSlave(d, e.id, e.sig, e.cls) IN
    IF (r.k = "ok") # e.ok THEN Bad(d, "C05:addslave") ELSE Good(r.d, "slaves")
DoRemoveSlave(e) ==
    LET r == RemoveSlave(d, e.id) IN
    IF (r.k = "ok") # e.ok THEN Bad(d, "C05:rmslave") ELSE Good(r.d, "slaves")
DoGetSlave(e) ==
    IF GetSlave(d, e.id) # e.obj THEN Bad(d, "C05:getslave") ELSE Good(d, last.tag)

\* obs: what came back: "none", "pdu" (correctly framed, with the pdu in r), "junk" or "hang"
DoRequest(e) ==
    IF e.obs = "hang" THEN Bad(d, "C02:hang")
    ELSE IF ~ModbusFc(e.p) THEN Good(d, "odd")
    ELSE IF e.u = 0 THEN IF e.obs # "none" THEN Bad(d, "C06:answered")
                         ELSE Good(BroadcastAll(d, e.p), "bcast")
    ELSE IF e.u \notin DOMAIN d.map THEN IF e.obs # "none" THEN Bad(d, "C05:answered") ELSE Good(d, "missing")
    ELSE LET o == d.map[e.u]
             r == Request(d.objs[o], e.p)
             n == IF "probe" \in DOMAIN e THEN "C03:visible " ELSE IF r.k = "ok" THEN "C01:" ELSE "C02:"
         IN IF e.obs # "pdu" THEN Bad(d, n \o e.obs)
            ELSE IF ~Answers(e.p, r, e.r)
            THEN Bad(d, n \o (IF IsException(e.p, e.r) THEN IF r.k = "ok" THEN "refused" ELSE "code"
                              ELSE IF r.k = "ok" THEN "reply" ELSE "notrefused"))
            ELSE Good([d EXCEPT !.objs[o] = After(d.objs[o], e.p, r, e.r)],
                      IF r.k = "ok" /\ ~IsException(e.p, e.r) THEN "carried" ELSE "refused")

DoApi(e) ==
    LET r == Api(d.objs[e.obj], e) IN
    IF (r.k = "ok") # e.ok THEN Bad(d, "C03:" \o e.op)
    ELSE IF e.op = "get" /\ e.ok
    THEN IF e.v # r.v
         THEN Bad(d, "VAL:" \o (IF last.obj # e.obj /\ last.tag # "bcast" THEN "foreign" ELSE last.tag))
         ELSE Good(d, last.tag)
    ELSE Good([d EXCEPT !.objs[e.obj] = r.s], IF e.ok THEN "api" ELSE "apirefused")

Step(e) == CASE e.e = "addslave" -> DoAddSlave(e)
             [] e.e = "rmslave" -> DoRemoveSlave(e)
             [] e.e = "clear" -> Good(ClearSlaves(d), "slaves")
             [] e.e = "getslave" -> DoGetSlave(e)
             [] e.e = "req" -> DoRequest(e)
             [] e.e = "api" -> DoApi(e)
             [] OTHER -> Bad(d, "event")

\* the slave an event is about (0: none or several)
Target(e) == CASE e.e = "api" -> e.obj
               [] e.e = "req" -> IF e.u \in DOMAIN d.map THEN d.map[e.u] ELSE 0
               [] OTHER -> 0

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ d = NoSlaves
        /\ last = [tag |-> "start", obj |-> 0] /\ dead = FALSE
Ev == Traces[t].ev
Next == /\ ~dead /\ l <= Len(Ev)
        /\ LET e == Ev[l]  r == Step(e) IN
           IF r.bad # ""
           THEN /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> r.bad, ev |-> e])>>)
                /\ dead' = TRUE /\ UNCHANGED <<t, l, d, last>>
           ELSE /\ d' = r.d /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
                /\ last' = IF (e.e = "api" /\ e.op = "get") \/ e.e = "getslave" THEN last
                           ELSE [tag |-> r.tag, obj |-> Target(e)]
                /\ (l = Len(Ev) => PrintT(<<"ACC", ToString(t)>>))
Spec == Init /\ [][Next]_vars
\* the design invariants hold in every state of every trace
Inv == \A i \in 1..Len(d.objs) : Disjoint(d.objs[i])
=============================================================================
