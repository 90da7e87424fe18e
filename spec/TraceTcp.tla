------------------------------ MODULE TraceTcp ------------------------------
(* Checks what was recorded on the connections of a TCP server: the bytes in *)
(* both directions, connections which open and close, and accesses through   *)
(* the Python interface.  The carrying out of a request is not observed: it  *)
(* is a step of the specification between two events (Carry).                *)
EXTENDS Databank, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)

VARIABLES t, l, d,
          con,      \* connection -> its state, see NewCon
          dead
vars == <<t, l, d, con, dead>>

NewCon(tm) == [open |-> TRUE,        \* the server has not closed it
               inp |-> <<>>,         \* bytes received and not yet used
               last |-> tm,          \* when the last byte came
               flt |-> {},           \* what the client did wrong: "eof", "rst", "bad", "stuck", "drip"
               owe |-> <<>>,         \* requests carried out, answers not yet sent
               buf |-> <<>>]         \* bytes sent which are no whole frame yet

\* the first frame of a byte string
FrameKind(b) ==
    IF Len(b) < 6 THEN "part"
    ELSE LET n == Word(b, 5) IN
         CASE n = 0 -> "bad"
           [] n > 254 -> "bad"
           [] Len(b) < 6 + n -> "part"
           [] n = 1 -> "empty"
           [] OTHER -> "whole"
FrameLen(b) == 6 + Word(b, 5)

\* what has to be answered: [kind |-> "reply", ...], [kind |-> "none"] or, outside of the standard, [kind |-> "any"]
Carried(x, f) ==
    LET p == Drop(f, 7)  y == Serve(x, f[7], p) IN
    [d |-> y.d, ob |-> IF y.k = "none" THEN <<>> ELSE <<[k |-> y.k, h |-> Take(f, 7), p |-> p, r |-> y.r]>>]

\* does the frame g answer the obligation?
Fits(ob, g) == /\ SubSeq(g, 1, 4) = SubSeq(ob.h, 1, 4)
               /\ g[7] = ob.h[7]
               /\ ob.k = "any" \/ Answers(ob.p, ob.r, Drop(g, 7))

\* take the whole frames out of buf: [buf, owe, bad]
RECURSIVE Match(_, _)
Match(buf, owe) ==
    IF Len(buf) >= 6 /\ Word(buf, 5) < 2 THEN [buf |-> buf, owe |-> owe, bad |-> "C07:frame"]
    ELSE IF Len(buf) < 6 \/ Len(buf) < FrameLen(buf) THEN [buf |-> buf, owe |-> owe, bad |-> ""]
    ELSE IF owe = <<>> THEN [buf |-> buf, owe |-> owe, bad |-> "C07:unasked"]
    ELSE IF Fits(owe[1], Take(buf, FrameLen(buf)))
         THEN Match(Drop(buf, FrameLen(buf)), Tail(owe))
    ELSE IF owe[1].k = "any" THEN Match(buf, Tail(owe))
    ELSE [buf |-> buf, owe |-> owe, bad |-> "C07:reply"]

\* --- steps which are not observed
Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)

\* the server has one thread: a request which has to be answered is answered, or its
\* connection closed, before the next one is carried out
Owes(x) == \E i \in 1..Len(x.owe) : x.owe[i].k # "any"
Idle == \A c \in DOMAIN con : ~(con[c].open /\ Owes(con[c]))
Quiet_(x) == x.ob = <<>>
\* carrying out a request earlier makes a difference only before these events
Matters(c, x) == \/ E.e \in {"api", "quiet", "rmslave", "addslave"}
                 \/ E.e \in {"out", "sclose"} /\ (E.c = c \/ Quiet_(x))

Carry(c) ==
    /\ Live /\ Idle /\ con[c].open
    /\ FrameKind(con[c].inp) = "whole"
    /\ LET f == Take(con[c].inp, FrameLen(con[c].inp))  x == Carried(d, f) IN
       /\ Matters(c, x)
       /\ d' = x.d
       /\ con' = [con EXCEPT ![c].inp = Drop(con[c].inp, Len(f)), ![c].owe = @ \o x.ob]
    /\ UNCHANGED <<t, l, dead>>
\* a frame without function code is used up; so is a malformed header, in some way
Skip(c) ==
    /\ Live /\ E.e \in {"out", "sclose", "quiet"} /\ con[c].open
    /\ FrameKind(con[c].inp) \in {"empty", "bad"}
    /\ con[c].inp # <<>>
    /\ \E n \in IF FrameKind(con[c].inp) = "empty" THEN {7} ELSE {6, 7, Len(con[c].inp)} :
          con' = [con EXCEPT ![c].inp = Drop(con[c].inp, n), ![c].flt = @ \cup {"bad"}]
    /\ UNCHANGED <<t, l, d, dead>>

\* --- events
Go(d2, con2) == [d |-> d2, con |-> con2, bad |-> ""]
No(why) == [d |-> d, con |-> con, bad |-> why]
Mis == IF Traces[t].bad THEN "C08:" ELSE "C07:"

DoApi(e) ==
    LET r == Api(d.objs[e.obj], e) IN
    IF (r.k = "ok") # e.ok THEN No("API:" \o e.op)
    ELSE IF e.op = "get" /\ e.ok /\ e.v # r.v THEN No(Mis \o "data")
    ELSE Go([d EXCEPT !.objs[e.obj] = r.s], con)

DoOut(e) ==
    IF ~con[e.c].open THEN No("C07:closed")
    ELSE LET m == Match(con[e.c].buf \o e.b, con[e.c].owe) IN
         IF m.bad # "" THEN No(m.bad)
         ELSE Go(d, [con EXCEPT ![e.c].buf = m.buf, ![e.c].owe = m.owe])

Silent(c, tm) == con[c].inp # <<>> /\ FrameKind(con[c].inp) \in {"part", "bad"} /\ tm - con[c].last >= 300
DoClose(e) ==
    IF con[e.c].flt # {} \/ Silent(e.c, e.tm) \/ FrameKind(con[e.c].inp) = "bad"
    THEN Go(d, [con EXCEPT ![e.c].open = FALSE])
    ELSE No(Mis \o "dropped")

\* everything had time to happen
Complaint(c) ==
    IF ~con[c].open THEN ""
    ELSE IF con[c].flt \cap {"eof", "rst"} # {} THEN "C08:notforgotten"
    ELSE IF con[c].flt # {} THEN ""
    ELSE IF FrameKind(con[c].inp) = "whole" \/ Owes(con[c]) \/ con[c].buf # <<>> THEN Mis \o "unanswered"
    ELSE IF con[c].inp # <<>> /\ FrameKind(con[c].inp) = "part" THEN "C08:notdisconnected"
    ELSE ""
DoQuiet == LET bad == {c \in DOMAIN con : Complaint(c) # ""} IN
           IF bad = {} THEN Go(d, con) ELSE No(Complaint(CHOOSE c \in bad : TRUE))

Step(e) ==
    CASE e.e = "addslave" -> Go(AddSlave(d, e.id, e.sig, e.cls).d, con)
      [] e.e = "api" -> DoApi(e)
      [] e.e = "open" -> Go(d, (e.c :> NewCon(e.tm)) @@ con)
      [] e.e = "refused" -> IF e.tm < 20 THEN Go(d, con) ELSE No(Mis \o "refused")
      [] e.e = "in" -> Go(d, [con EXCEPT ![e.c].inp = @ \o e.b, ![e.c].last = e.tm])
      [] e.e = "eof" -> Go(d, [con EXCEPT ![e.c].flt = @ \cup {"eof"}])
      [] e.e = "rst" -> Go(d, [con EXCEPT ![e.c].flt = @ \cup {"rst"}])
      [] e.e = "stuck" -> Go(d, [con EXCEPT ![e.c].flt = @ \cup {"stuck"}])
      \* sends byte after byte and never the last one of a frame
      [] e.e = "drip" -> Go(d, [con EXCEPT ![e.c].flt = @ \cup {"drip"}])
      [] e.e = "out" -> DoOut(e)
      [] e.e = "sclose" -> DoClose(e)
      [] e.e = "quiet" -> DoQuiet

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ d = NoSlaves /\ con = [c \in {} |-> 0] /\ dead = FALSE
Observe ==
    /\ Live
    /\ LET r == Step(E) IN
       IF r.bad # ""
       THEN /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> r.bad, ev |-> E])>>)
            /\ dead' = TRUE /\ UNCHANGED <<t, l, d, con>>
       ELSE /\ d' = r.d /\ con' = r.con /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
            /\ (l = Len(Ev) /\ Traces[t].end = "ok") => PrintT(<<"ACC", ToString(t)>>)
Next == Observe \/ \E c \in DOMAIN con : Carry(c) \/ Skip(c)
Spec == Init /\ [][Next]_vars

Report == (l = 1 /\ Traces[t].end # "ok") =>
            PrintT(<<"REJECT", ToJson([t |-> t, at |-> 0, clause |-> "END:" \o Traces[t].end])>>)
Inv == \A i \in 1..Len(d.objs) : Disjoint(d.objs[i])
=============================================================================
