----------------------------- MODULE TraceFail ------------------------------
(* Hook functions which raise: exchanges one after the other, with a server  *)
(* (ask) or by a master (exec), during some of which functions raised.       *)
(*   ask(c, u, p, obs, r, raised, code)   request p to unit u on connection  *)
(*        c; obs: "none", "pdu" (r is the answer), "junk" or "closed"; code: *)
(*        a function of the slave refused it with this exception code, or 0  *)
(*   exec(u, p, k, v, code, raised)       k: "ret" with v, or "raise"        *)
(*   api, join(c, ok), drop(c) the server closed it, leave(c), start, stop,  *)
(*   open, close of a master, state(obj, name, v) the values of a block      *)
EXTENDS Databank, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES t, l, dead,
          d,        \* the slaves
          may,      \* what they may be as well, after an exchange which failed
          hurt,     \* connections which were used when a function raised
          up        \* the server runs
vars == <<t, l, dead, d, may, hurt, up>>
Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)

\* what an exchange leads to
Out == Serve(d, E.u, E.p)
\* an answer which does not say that the request was carried out
Refusal(b) == Len(b) = 2 /\ b[1] = E.p[1] + 128

DoAsk ==
    IF ~E.raised
    THEN CASE Out.k = "none" -> IF E.obs = "none" THEN "" ELSE "C26:answered"
           [] Out.k = "any" -> ""
           [] OTHER -> IF E.obs = "pdu" /\ Answers(E.p, Out.r, E.r) THEN ""
                       ELSE IF E.obs = "none" THEN "C26:unanswered" ELSE "C26:answer"
    ELSE IF E.obs = "junk" THEN "C26:answer"
    ELSE IF E.code # 0 /\ Out.k = "reply"
         THEN IF E.obs = "pdu" /\ E.r = <<E.p[1] + 128, E.code>> THEN "" ELSE "C26:refusal"
    ELSE IF E.obs # "pdu" THEN ""
    ELSE IF Out.k = "none" THEN "C26:answered"
    ELSE IF Refusal(E.r) \/ Out.k = "any" \/ Answers(E.p, Out.r, E.r) THEN "" ELSE "C26:answer"

\* what execute returns for the answer b
Value(b) == IF b[1] = 3 THEN BytesToWords(Drop(b, 2)) ELSE BytesToWords(Drop(b, 1))
DoExec ==
    IF E.raised THEN (IF E.k = "raise" THEN "" ELSE "C26:swallowed")
    ELSE IF Out.k # "reply" THEN (IF E.k = "raise" THEN "" ELSE "C26:result")
    ELSE IF Out.r.k = "ok" THEN (IF E.k = "ret" /\ E.v = Value(<<E.p[1]>> \o Out.r.rep) THEN "" ELSE "C26:result")
    ELSE IF E.k = "raise" /\ E.code \in Out.r.codes THEN "" ELSE "C26:result"

Api1 == Api(d.objs[E.obj], E)
Block(x) == x.objs[E.obj].blk[E.name].v
Verdict ==
    CASE E.e = "addslave" -> ""
      [] E.e = "api" -> IF E.raised THEN (IF E.ok THEN "C26:swallowed" ELSE "")
                        ELSE IF (Api1.k = "ok") # E.ok THEN "C26:api" ELSE ""
      [] E.e = "ask" -> DoAsk
      [] E.e = "exec" -> DoExec
      [] E.e = "state" -> IF Len(E.v) # Len(Block(d)) THEN "C26:data"
                          ELSE IF \A i \in 1..Len(E.v) : E.v[i] \in {Block(d)[i], Block(may)[i]} THEN "" ELSE "C26:data"
      [] E.e = "drop" -> IF E.c \in hurt \/ ~up THEN "" ELSE "C26:dropped"
      [] E.e \in {"join", "start", "stop", "open", "close"} -> IF ~E.ok /\ ~E.raised THEN "C26:" \o E.e ELSE ""
      [] OTHER -> ""

\* the state which is gone on with: after a failure it is told by the state events which follow
Next_ ==
    CASE E.e = "addslave" -> LET x == AddSlave(d, E.id, E.sig, E.cls).d IN <<x, x>>
      [] E.e = "api" -> LET x == [d EXCEPT !.objs[E.obj] = Api1.s] IN IF E.raised THEN <<d, d>> ELSE <<x, x>>
      [] E.e \in {"ask", "exec"} -> IF ~E.raised THEN <<Out.d, Out.d>>
                                    ELSE IF E.e = "ask" /\ E.code # 0 /\ Out.k = "reply" THEN <<d, d>> ELSE <<d, Out.d>>
      [] E.e = "state" -> <<[d EXCEPT !.objs[E.obj].blk[E.name].v = E.v], [may EXCEPT !.objs[E.obj].blk[E.name].v = E.v]>>
      [] OTHER -> <<d, may>>

Observe ==
    /\ Live /\ Verdict = ""
    /\ d' = Next_[1] /\ may' = Next_[2]
    /\ hurt' = IF E.e \in {"ask", "join"} /\ E.raised THEN hurt \cup {E.c} ELSE hurt
    /\ up' = (CASE E.e = "start" -> E.ok /\ ~E.raised [] E.e = "stop" -> FALSE [] OTHER -> up)
    /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
    /\ (l = Len(Ev) /\ Traces[t].end = "ok") => PrintT(<<"ACC", ToString(t)>>)
Reject ==
    /\ Live /\ Verdict # ""
    /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> Verdict, ev |-> E])>>)
    /\ dead' = TRUE /\ UNCHANGED <<t, l, d, may, hurt, up>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ dead = FALSE /\ d = NoSlaves /\ may = NoSlaves /\ hurt = {} /\ up = FALSE
Next == Observe \/ Reject
Spec == Init /\ [][Next]_vars
Report == (l = 1 /\ Traces[t].end # "ok") =>
            PrintT(<<"REJECT", ToJson([t |-> t, at |-> 0, clause |-> "END:" \o Traces[t].end])>>)
=============================================================================
