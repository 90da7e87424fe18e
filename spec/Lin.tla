-------------------------------- MODULE Lin ---------------------------------
(* Are the results of concurrent operations on a databank those of some      *)
(* sequential order which respects real time?  The file named by TRACEFILE   *)
(* is a list of histories; a history is a list of completed operations with  *)
(* the times of call and return.  TLC looks for an order (Next); a history   *)
(* is accepted when one exists.                                              *)
(*                                                                           *)
(* A request to one slave and a call of the Python interface take effect at  *)
(* one point of time.  A broadcast takes effect on each slave separately: on *)
(* every slave which is registered all along exactly once, on the others     *)
(* which are registered at some time of it at most once.                     *)
EXTENDS Codec, Databank, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)

VARIABLES t,      \* which history
          done,   \* the operations which have taken effect
          d,      \* the databank
          act     \* active broadcasts: operation -> [must, may, did]: sets of objects
vars == <<t, done, d, act>>

Ev == Traces[t].ev
Ops == 1..Len(Ev)
NoAct == [i \in {} |-> 0]

Init == /\ t \in 1..Len(Traces)
        /\ done = {}
        /\ d = [objs |-> [i \in 1..8 |-> NewSlave(FALSE, <<1, 2, 3, 4>>)], map |-> [i \in {} |-> 0]]
        /\ act = NoAct

\* operation i may take effect now: everything which returned before its call has
Due(i) == /\ i \notin done /\ i \notin DOMAIN act
          /\ \A j \in Ops : Ev[j].ret < Ev[i].call => j \in done

Registered(x) == {x.map[i] : i \in DOMAIN x.map}

\* the databank becomes d2: broadcasts under way meet the slaves which come and go
Become(d2, a) ==
    /\ d' = d2
    /\ act' = [b \in DOMAIN a |-> [a[b] EXCEPT !.must = @ \cap Registered(d2), !.may = @ \cup Registered(d2)]]

\* a request reaches the slave which is registered under its id at some time of the call
\* (every id is given once in the histories with such calls)
Reached(i, id) ==
    {d.map[x] : x \in DOMAIN d.map \cap {id}} \cup
    {Ev[j].obj : j \in {x \in done : /\ Ev[x].e = "addslave" /\ Ev[x].id = id /\ Ev[x].ok
                                    /\ \E y \in done : Ev[y].e = "rmslave" /\ Ev[y].id = id /\ Ev[y].ret > Ev[i].call}}

Atomic(i) == LET e == Ev[i] IN
    CASE e.e = "api" -> LET r == Api(d.objs[e.obj], e) IN
             /\ (r.k = "ok") = e.ok
             /\ (e.op = "get" /\ e.ok) => e.v = r.v
             /\ Become([d EXCEPT !.objs[e.obj] = r.s], act)
      [] e.e = "req" ->
             IF e.u \notin DOMAIN d.map THEN e.obs = "none" /\ Become(d, act)
             ELSE LET o == d.map[e.u]  r == Request(d.objs[o], e.p) IN
                  /\ e.obs = "pdu"
                  /\ Answers(e.p, r, e.r)
                  /\ Become([d EXCEPT !.objs[o] = After(d.objs[o], e.p, r, e.r)], act)
      \* a call of a master: it returns what the reply means, or raises what the slave refuses
      [] e.e = "exec" -> LET c == e.c IN
             \/ ~Expressible(c) /\ e.k = "exc" /\ Become(d, act)
             \/ Expressible(c) /\ c.slave \notin DOMAIN d.map /\ e.k = "exc" /\ Become(d, act)
             \/ Expressible(c) /\ \E o \in Reached(i, c.slave) : LET r == Request(d.objs[o], EncodePdu(c)) IN
                  IF r.k = "refuse" THEN e.k = "modbus" /\ e.code \in r.codes /\ Become(d, act)
                  ELSE /\ e.k = "ok" /\ e.v = DecodePdu(c, <<c.fc>> \o r.rep).v
                       /\ Become([d EXCEPT !.objs[o] = r.s], act)
             \* the reply was lost or late: the request is carried out once or not at all
             \/ e.k = "lost" /\ Become(d, act)
             \/ e.k = "lost" /\ Expressible(c) /\ \E o \in Reached(i, c.slave) : LET r == Request(d.objs[o], EncodePdu(c)) IN
                  r.k # "refuse" /\ Become([d EXCEPT !.objs[o] = r.s], act)
      [] e.e = "addslave" ->
             /\ e.ok = (e.id \in 1..255 /\ e.id \notin DOMAIN d.map)
             /\ Become(IF e.ok THEN [objs |-> [d.objs EXCEPT ![e.obj] = NewSlave(e.sig, e.cls)],
                                     map |-> (e.id :> e.obj) @@ d.map] ELSE d, act)
      [] e.e = "rmslave" -> LET r == RemoveSlave(d, e.id) IN (r.k = "ok") = e.ok /\ Become(r.d, act)
      [] e.e = "clear" -> Become(ClearSlaves(d), act)
      [] e.e = "getslave" -> e.obj = GetSlave(d, e.id) /\ Become(d, act)
      [] OTHER -> FALSE

IsBroadcast(i) == Ev[i].e = "req" /\ Ev[i].u = 0

TakeEffect(i) == /\ Due(i) /\ ~IsBroadcast(i) /\ Atomic(i) /\ done' = done \cup {i} /\ UNCHANGED t

Begin(i) == /\ Due(i) /\ IsBroadcast(i) /\ Ev[i].obs = "none"
            /\ act' = (i :> [must |-> Registered(d), may |-> Registered(d), did |-> {}]) @@ act
            /\ UNCHANGED <<t, done, d>>
Hit(i, o) == /\ i \in DOMAIN act /\ o \in act[i].may \ act[i].did
             /\ d' = [d EXCEPT !.objs[o] = Broadcast1(d.objs[o], Ev[i].p)]
             /\ act' = [act EXCEPT ![i].did = @ \cup {o}]
             /\ UNCHANGED <<t, done>>
End(i) == /\ i \in DOMAIN act /\ act[i].must \subseteq act[i].did
          /\ act' = [b \in DOMAIN act \ {i} |-> act[b]] /\ done' = done \cup {i} /\ UNCHANGED <<t, d>>

Finished == done = Ops
Next == /\ ~Finished /\ Traces[t].end = "ok"
        /\ \E i \in Ops : TakeEffect(i) \/ Begin(i) \/ End(i) \/ \E o \in 1..8 : Hit(i, o)
Spec == Init /\ [][Next]_vars

Accept == Finished => PrintT(<<"ACC", ToString(t)>>)
\* a history which did not end is rejected
Report == (done = {} /\ Traces[t].end # "ok") =>
            PrintT(<<"REJECT", ToJson([t |-> t, at |-> 1, clause |-> "END:" \o Traces[t].end])>>)
Inv == \A i \in 1..8 : Disjoint(d.objs[i])
=============================================================================
