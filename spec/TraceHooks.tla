----------------------------- MODULE TraceHooks -----------------------------
(* Checks the hook points of masters, servers, slaves and databanks: which   *)
(* functions are called, in which order and with which arguments, and what   *)
(* becomes of the data.                                                      *)
(* The specification is a program of steps for every operation (todo).  A    *)
(* step "h" is a hook point: the functions installed under its name are      *)
(* called in order until one returns something.                              *)
(* Events: inst/uninst(n, f, ok), op(...) starts an operation, h(n, f, o, d, *)
(* r, v) a function is called with the objects o and the data d and returns  *)
(* v if r, wire(b) bytes which are sent, reply(b) bytes which come, res the  *)
(* result of execute, dump(i, m, v) the content of a block, end.             *)
EXTENDS Databank, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES t, l, dead,
          reg,      \* hook point -> functions installed
          todo,     \* steps to come
          occ,      \* the hook point at which functions are being called
          x,        \* the request: what it may be
          y,        \* the response: what it may be
          q,        \* the request as the master built it
          p,        \* the request pdu which slaves get
          ans,      \* what a function returned instead of the slave
          d,        \* the data
          w,        \* the slave as the writes which functions have seen left it
          on        \* the master is open
vars == <<t, l, dead, reg, todo, occ, x, y, q, p, ans, d, w, on>>

Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)
Tcp == Traces[t].mac = "tcp"

NoOcc == [n |-> "", left |-> <<>>, late |-> {}, go |-> FALSE, o |-> <<>>, b |-> <<>>]
NoAns == [k |-> FALSE, b |-> <<>>]
Reg(n) == IF n \in DOMAIN reg THEN reg[n] ELSE <<>>
Has(s, f) == \E i \in DOMAIN s : s[i] = f

\* --- registers: a set of values, or any two bytes followed by the given ones
Vals(s) == [k |-> "set", s |-> s, tail |-> <<>>]
Any2(b) == [k |-> "tail", s |-> {}, tail |-> b]
Fits(r, b) == IF r.k = "set" THEN b \in r.s ELSE Len(b) = Len(r.tail) + 2 /\ Drop(b, 2) = r.tail
None_ == Vals({<<>>})
The(r) == CHOOSE b \in r.s : TRUE

\* --- steps
\* at the hook point n the objects are one of o and the data is in register r ("x", "y", "p", "v" the bytes b, "-" none, "*" any);
\* rep: what is returned replaces it; opt: the hook point may be left out
H(n, o, r, rep, opt) == [s |-> "h", n |-> n, o |-> o, r |-> r, rep |-> rep, opt |-> opt, b |-> <<>>]
Hook(n, who, r) == H(n, {who}, r, FALSE, FALSE)
Mod(n, who, r) == H(n, {who}, r, TRUE, FALSE)
S(s) == [s |-> s]
SlaveTag(i) == "slave" \o ToString(i)
FcHook(fc) == "modbus.Slave.handle_" \o
    (CASE fc = 1 -> "read_coils" [] fc = 2 -> "read_discrete_inputs" [] fc = 3 -> "read_holding_registers"
       [] fc = 4 -> "read_input_registers" [] fc = 5 -> "write_single_coil" [] fc = 6 -> "write_single_register"
       [] fc = 7 -> "read_exception_status" [] fc = 15 -> "write_multiple_coils" [] fc = 16 -> "write_multiple_registers"
       [] fc = 22 -> "mask_write_register" [] fc = 23 -> "read_write_multiple_registers" [] OTHER -> "?") \o "_request"
SETITEM == "modbus.ModbusBlock.setitem"

\* a response around a pdu
Frame(b) == IF Tcp THEN SubSeq(The(x), 1, 4) \o W(Len(b) + 1) \o <<The(x)[7]>> \o b ELSE RtuFrame(The(x)[1], b)
Framed(v) == IF Tcp THEN Len(v) >= 8 /\ Word(v, 5) = Len(v) - 6 ELSE Len(v) >= 4 /\ RtuIntact(v)
Unit(v) == IF Tcp THEN v[7] ELSE v[1]
Pdu(v) == IF Tcp THEN Drop(v, 7) ELSE SubSeq(v, 2, Len(v) - 2)

Served == <<Mod("modbus.Server.before_handle_request", <<"srv", "data">>, "x"), S("core"),
            Mod("modbus.Server.after_handle_request", <<"srv", "data">>, "y")>>
Opens(k) == CASE k \in {"tcp", "rtutcp"} -> <<Hook("modbus_tcp.TcpMaster.before_connect", <<"mst">>, "-"),
                                              Hook("modbus_tcp.TcpMaster.after_connect", <<"mst">>, "-")>>
              [] OTHER -> <<Hook("modbus_rtu.RtuMaster.before_open", <<"mst">>, "-")>>
Closes(k) == CASE k \in {"tcp", "rtutcp"} -> <<Hook("modbus_tcp.TcpMaster.before_close", <<"mst">>, "-"),
                                               Hook("modbus_tcp.TcpMaster.after_close", <<"mst">>, "-")>>
               [] OTHER -> <<Hook("modbus_rtu.RtuMaster.after_close", <<"mst">>, "-")>>
BeforeSend(k) == IF k = "rtu" THEN "modbus_rtu.RtuMaster.before_send" ELSE "modbus_tcp.TcpMaster.before_send"
AfterRecv(k) == CASE k = "rtu" -> "modbus_rtu.RtuMaster.after_recv" [] k = "tcp" -> "modbus_tcp.TcpMaster.after_recv"
                  [] OTHER -> "modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv"
Exec(k) == (IF on THEN <<>> ELSE Opens(k)) \o
           <<Mod("modbus.Master.before_send", <<"mst", "data">>, "x"), Mod(BeforeSend(k), <<"mst", "data">>, "x"),
             S("wirex"), Hook("modbus.Master.after_send", <<"mst">>, "-"), S("reply"),
             Mod(AfterRecv(k), <<"mst", "data">>, "y"), Mod("modbus.Master.after_recv", <<"mst", "data">>, "y"), S("res")>>

Program(e) ==
    CASE e.op = "exec" -> Exec(e.k)
      [] e.op = "open" -> IF on THEN <<>> ELSE Opens(e.k)
      [] e.op = "close" -> IF on THEN Closes(e.k) ELSE <<>>
      [] e.op = "connect" -> <<Hook("modbus_tcp.TcpServer.on_connect", <<"srv", e.c, "addr">>, "-")>>
      [] e.op = "leave" -> <<Hook("modbus_tcp.TcpServer.on_disconnect", <<"srv", e.c>>, "-")>>
      [] e.op = "reset" -> <<Hook("modbus_tcp.TcpServer.on_error", <<"srv", e.c, "exc">>, "-")>>
      \* a client which leaves within a frame
      [] e.op = "part" -> <<H("modbus_tcp.TcpServer.after_recv", {<<"srv", e.c, "data">>}, "*", FALSE, TRUE),
                            Hook("modbus_tcp.TcpServer.on_disconnect", <<"srv", e.c>>, "-")>>
      [] e.op = "tcpreq" -> <<[s |-> "head", c |-> e.c]>> \o Served \o <<[s |-> "answer", c |-> e.c]>>
      [] e.op = "rtureq" -> <<Mod("modbus_rtu.RtuServer.after_read", <<"srv", "data">>, "x")>> \o Served \o <<[s |-> "rtuanswer", f |-> e.fault]>>
      [] e.op = "rtustart" -> <<Hook("modbus_rtu.RtuServer.before_open", <<"srv">>, "-"), Hook("modbus_rtu.RtuServer.after_open", <<"srv">>, "-")>>
      [] e.op = "rtustop" -> <<Hook("modbus_rtu.RtuServer.before_close", <<"srv">>, "-"), Hook("modbus_rtu.RtuServer.after_close", <<"srv">>, "-")>>
      [] e.op = "startfail" -> <<Hook("modbus.Server.on_exception", <<"srv2", "exc">>, "-")>>
      [] e.op = "set" -> <<[s |-> "sets", i |-> e.i, then |-> <<>>, s2 |-> PutIn(d.objs[e.i], e.m, e.a, e.v)]>>
      [] OTHER -> <<[s |-> "unknown operation"]>>
FirstX(e) == CASE e.op = "exec" -> IF e.k = "tcp" THEN Any2(<<0, 0>> \o W(Len(e.pdu) + 1) \o <<e.u>> \o e.pdu)
                                   ELSE Vals({RtuFrame(e.u, e.pdu)})
               [] e.op \in {"tcpreq", "rtureq"} -> Vals({e.b})
               [] OTHER -> None_

\* --- what a slave does
Writes2(i) == IF i = 0 THEN NewSlave(FALSE, <<1, 2, 3, 4>>) ELSE d.objs[i]
Refused(i, b, codes) ==
    LET o == {<<SlaveTag(i), "fc:" \o ToString(p[1]), "code:" \o ToString(c)>> : c \in codes}
    IN IF codes = AnyCode      \* one of them
       THEN {<<H("modbus.Slave.on_exception", o, "-", FALSE, FALSE)>>, <<H("modbus.Databank.on_error", {<<"db", "exc", "data">>}, "p", FALSE, FALSE)>>}
       ELSE {<<H("modbus.Slave.on_exception", o, "-", FALSE, FALSE)>>}
Do(i, b) ==     \* what the steps may be and what is answered
    LET r == Request(d.objs[i], p)  fc == p[1] IN
    IF fc \notin Supported THEN [steps |-> Refused(i, b, {1}), y |-> {Frame(<<fc + 128, 1>>)}]
    ELSE IF b /\ fc \in PureReads THEN [steps |-> {<<>>}, y |-> {<<>>}]
    ELSE LET h == Hook(FcHook(fc), <<SlaveTag(i), "data">>, "p") IN
         IF r.k = "ok"
         THEN [steps |-> {<<h, [s |-> "sets", i |-> i, s2 |-> r.s,
                                then |-> IF b THEN <<[Hook("modbus.Slave.on_handle_broadcast", <<SlaveTag(i), "data">>, "v") EXCEPT !.b = r.rep]>>
                                        ELSE <<>>]>>},
               y |-> {Frame(<<fc>> \o r.rep)}]
         ELSE [steps |-> {<<h>> \o z : z \in Refused(i, b, r.codes)}, y |-> {Frame(<<fc + 128, c>>) : c \in r.codes}]

\* a truncated broadcast need not get to further slaves
Malformed(i) == p[1] \in Supported /\ LET r == Request(d.objs[i], p) IN r.k # "ok" /\ r.codes = AnyCode

\* --- steps which are not observed: [ok, todo, x, y, p, ans, d, w]
Head_ == todo[1]
Rest == Tail(todo)
St(td) == [todo |-> td, y |-> y, p |-> p, ans |-> ans, d |-> d, w |-> w]
Slaves == {d.map[i] : i \in DOMAIN d.map}

SilentNext ==
    LET h == Head_ IN
    CASE h.s = "core" ->
           LET v == The(x) IN
           IF ~Framed(v) THEN {[St(<<H("modbus.Databank.on_error", {<<"db", "exc", "data">>}, "*", FALSE, TRUE)>> \o Rest) EXCEPT !.y = None_]}
           ELSE IF Unit(v) = 0 THEN {[St(<<[s |-> "each", left |-> Slaves]>> \o Rest) EXCEPT !.y = None_, !.p = Pdu(v)]}
           ELSE IF Unit(v) \notin DOMAIN d.map THEN {[St(Rest) EXCEPT !.y = None_]}
           ELSE {[St(<<[s |-> "slave", i |-> d.map[Unit(v)], b |-> FALSE]>> \o Rest) EXCEPT !.p = Pdu(v)]}
      [] h.s = "each" ->
           IF h.left = {} THEN {St(Rest)}
           ELSE {St(<<[s |-> "slave", i |-> i, b |-> TRUE], [s |-> "each", left |-> h.left \ {i}]>> \o Rest) : i \in h.left}
                \cup (IF \E i \in Slaves \ h.left : Malformed(i) THEN {St(Rest)} ELSE {})
      [] h.s = "slave" ->
           {[St(<<H("modbus.Slave.handle_request", {<<SlaveTag(h.i), "data">>}, "p", TRUE, h.b /\ p[1] \in PureReads),
                  [s |-> "do", i |-> h.i, b |-> h.b]>> \o Rest) EXCEPT !.ans = NoAns]}
      [] h.s = "do" ->
           IF ans.k THEN {[St(Rest) EXCEPT !.y = IF h.b THEN y ELSE Vals({Frame(ans.b)}), !.ans = NoAns]}
           ELSE LET r == Do(h.i, h.b) IN {[St(z \o Rest) EXCEPT !.y = IF h.b THEN y ELSE Vals(r.y), !.w = d.objs[h.i]] : z \in r.steps}
      [] h.s = "sets" ->
           \* no further write
           IF Reg(SETITEM) = <<>> \/ w = h.s2 THEN {[St(h.then \o Rest) EXCEPT !.d.objs[h.i] = h.s2]} ELSE {}
      [] h.s = "answer" ->
           IF y = None_ THEN {St(Rest)}
           ELSE {St(<<Mod("modbus_tcp.TcpServer.before_send", <<"srv", h.c, "data">>, "y"), S("wirey"),
                      [s |-> "aftersend", c |-> h.c]>> \o Rest)}
      [] h.s = "aftersend" ->
           {St(<<H("modbus_tcp.TcpServer.after_send", {<<"srv", h.c, "data">>}, "y", FALSE, y = None_)>> \o Rest)}
      [] h.s = "rtuanswer" ->
           {St(<<H("modbus_rtu.RtuServer.before_write", {<<"srv", "data">>}, "y", TRUE, y = None_), [s |-> "rtuwrite", f |-> h.f]>> \o Rest)}
      [] h.s = "rtuwrite" ->
           IF h.f /\ y # None_ THEN {St(<<Hook("modbus_rtu.RtuServer.on_error", <<"srv", "exc">>, "-")>> \o Rest)}
           ELSE {St(<<S("wirey"), H("modbus_rtu.RtuServer.after_write", {<<"srv", "data">>}, "y", FALSE, y = None_)>> \o Rest)}
      [] h.s = "wirex" -> IF x = None_ THEN {St(Rest)} ELSE {}       \* nothing is sent, nothing is answered
      [] h.s = "reply" -> IF x = None_ THEN {[St(Rest) EXCEPT !.y = Vals({<<>>})]} ELSE {}
      [] h.s = "wirey" -> IF y = None_ THEN {St(Rest)} ELSE {}
      [] h.s = "head" -> IF Reg("modbus_tcp.TcpServer.after_recv") = <<>> THEN {St(Rest)} ELSE {}
      [] h.s = "h" -> IF Reg(h.n) = <<>> \/ h.opt THEN {St(Rest)} ELSE {}
      [] OTHER -> {}

Silent == /\ Live /\ E.e \notin {"inst", "uninst"} /\ todo # <<>> /\ occ = NoOcc
          /\ \E z \in SilentNext : /\ todo' = z.todo /\ y' = z.y /\ p' = z.p /\ ans' = z.ans /\ d' = z.d /\ w' = z.w
                                  /\ UNCHANGED <<t, l, dead, reg, occ, x, q, on>>

\* --- functions which are called
Step_(e) == e.e = "h" /\ todo # <<>> /\ occ = NoOcc
RegValue(r) == CASE r = "x" -> x [] r = "y" -> y [] r = "p" -> Vals({p}) [] OTHER -> None_
DataFits(h, b) == CASE h.r = "*" -> TRUE [] h.r = "-" -> b = <<>> [] h.r = "v" -> b = h.b [] OTHER -> Fits(RegValue(h.r), b)

\* a function is called at the hook point of the first step
Starts(e) == Step_(e) /\ Head_.s = "h" /\ Head_.n = e.n /\ Reg(e.n) # <<>>
WhyNot(e) ==
    IF todo = <<>> THEN "C18:called"
    ELSE IF Head_.s # "h" \/ Head_.n # e.n THEN "C18:point"
    ELSE IF Reg(e.n) = <<>> \/ ~Has(Reg(e.n), e.f) THEN "C18:notinstalled"
    ELSE IF Reg(e.n)[1] # e.f THEN "C18:order"
    ELSE IF e.o \notin Head_.o THEN "C18:objects"
    ELSE IF ~DataFits(Head_, e.d) THEN "C18:data" ELSE ""
NewOcc(e) == [n |-> e.n, left |-> IF e.r THEN <<>> ELSE Tail(Reg(e.n)), late |-> {}, go |-> ~e.r, o |-> e.o, b |-> e.d]
First(e) ==
    /\ Live /\ Starts(e) /\ WhyNot(e) = ""
    /\ occ' = NewOcc(e)
    /\ LET h == Head_  new == IF e.r /\ h.rep THEN e.v ELSE e.d IN
       /\ x' = (IF h.r = "x" THEN Vals({new}) ELSE x)
       /\ y' = (IF h.r = "y" THEN Vals({new}) ELSE y)
       /\ q' = (IF h.r = "x" /\ x.k = "tail" THEN e.d ELSE q)
       /\ ans' = (IF h.r = "p" /\ h.rep /\ e.r THEN [k |-> TRUE, b |-> e.v] ELSE ans)
    /\ UNCHANGED <<todo, p, d, w, on>>
\* the next one, unless it has been uninstalled; one which has been installed meanwhile may be called, too
Left == SelectSeq(occ.left, LAMBDA f : Has(Reg(occ.n), f))
Follows(e) == e.e = "h" /\ occ # NoOcc /\ e.n = occ.n
              /\ (IF Left # <<>> THEN e.f = Left[1] ELSE e.f \in occ.late /\ Has(Reg(e.n), e.f))
WhyNotNext(e) == IF e.o # occ.o THEN "C18:objects" ELSE IF e.d # occ.b THEN "C18:data" ELSE ""
Following(e) ==
    /\ Live /\ Follows(e) /\ WhyNotNext(e) = ""
    /\ occ' = (IF e.r THEN [occ EXCEPT !.left = <<>>, !.late = {}, !.go = FALSE]
               ELSE IF Left # <<>> THEN [occ EXCEPT !.left = Tail(Left)] ELSE [occ EXCEPT !.late = @ \ {e.f}])
    /\ LET h == Head_ IN
       IF e.n = SETITEM \/ ~e.r THEN UNCHANGED <<x, y, ans>>
       ELSE IF h.s = "head" THEN x' = Vals({e.v \o Drop(The(x), Len(e.d))}) /\ UNCHANGED <<y, ans>>
       ELSE IF ~h.rep THEN UNCHANGED <<x, y, ans>>
       ELSE /\ x' = (IF h.r = "x" THEN Vals({e.v}) ELSE x)
            /\ y' = (IF h.r = "y" THEN Vals({e.v}) ELSE y)
            /\ ans' = (IF h.r = "p" THEN [k |-> TRUE, b |-> e.v] ELSE ans)
    /\ UNCHANGED <<todo, q, p, d, w, on>>
\* all functions have been called
EndOcc == /\ Live /\ occ # NoOcc /\ E.e \notin {"inst", "uninst"} /\ Left = <<>>
          /\ occ' = NoOcc /\ todo' = (IF occ.n = SETITEM THEN todo ELSE Rest)
          /\ UNCHANGED <<t, l, dead, reg, x, y, q, p, ans, d, w, on>>

\* the first bytes of a request: they are returned changed, with the same length
IsHead(e) == Step_(e) /\ Head_.s = "head" /\ e.n = "modbus_tcp.TcpServer.after_recv" /\ Reg(e.n) # <<>>
WhyNotHead(e) == IF Reg(e.n)[1] # e.f THEN "C18:order"
                 ELSE IF e.o # <<"srv", Head_.c, "data">> THEN "C18:objects"
                 ELSE IF Len(e.d) < 7 \/ Len(e.d) > Len(The(x)) \/ e.d # Take(The(x), Len(e.d)) THEN "C18:data" ELSE ""

\* --- writes seen by functions
IsSet(e) == Step_(e) /\ Head_.s = "sets" /\ e.n = SETITEM /\ Reg(e.n) # <<>>
SetBlock(e) == {m \in Names(w) : e.a >= w.blk[m].a /\ e.a + Len(e.v2) <= BlockEnd(w.blk[m])}
WhyNotSet(e) == IF Reg(e.n)[1] # e.f THEN "C18:order"
                ELSE IF e.a < 0 \/ SetBlock(e) = {} THEN "C18:setitem" ELSE ""

\* --- other events
Master == Traces[t].side = "master"
Decoded(v, e) ==
    LET okf == IF Tcp THEN Len(v) >= 9 /\ Take(v, 2) = Take(q, 2) /\ Word(v, 3) = 0 /\ Word(v, 5) = Len(v) - 6 /\ v[7] = q[7]
               ELSE Len(v) >= 4 /\ RtuIntact(v) /\ v[1] = q[1]
        b == Pdu(v)
    IN IF ~okf THEN [k |-> "err", v |-> <<>>]
       ELSE IF Len(b) = 2 /\ b[1] = e.fc + 128 THEN [k |-> "exc", v |-> <<b[2]>>]
       ELSE IF e.fc = 3 /\ b[1] = 3 /\ Len(b) = 2 + 2 * e.qty /\ b[2] = 2 * e.qty THEN [k |-> "ok", v |-> BytesToWords(Drop(b, 2))]
       ELSE IF e.fc = 6 /\ b[1] = 6 /\ Len(b) = 5 THEN [k |-> "ok", v |-> BytesToWords(Drop(b, 1))]
       ELSE [k |-> "err", v |-> <<>>]

\* an exception response to another function code is taken as exception or refused
OtherExc(v, e) == /\ Decoded(v, e).k = "err" /\ Len(v) >= 4 /\ Len(Pdu(v)) = 2 /\ Pdu(v)[1] > 128
                  /\ e.k = "exc" /\ e.v = <<Pdu(v)[2]>>
                  /\ (IF Tcp THEN Take(v, 2) = Take(q, 2) /\ v[7] = q[7] ELSE RtuIntact(v) /\ v[1] = q[1])

Verdict ==
    CASE E.e \in {"inst", "uninst"} -> ""
      [] E.e = "h" ->
           IF occ # NoOcc THEN (IF Follows(E) THEN WhyNotNext(E) ELSE "C18:order")
           ELSE IF IsHead(E) THEN WhyNotHead(E)
           ELSE IF IsSet(E) THEN WhyNotSet(E)
           ELSE WhyNot(E)
      [] occ # NoOcc -> "C18:notcalled"
      [] E.e = "wire" -> IF todo = <<>> THEN "C18:sent"
                         ELSE IF Head_.s = "wirex" THEN (IF Fits(x, E.b) THEN "" ELSE "C18:wire")
                         ELSE IF Head_.s = "wirey" THEN (IF Fits(y, E.b) THEN "" ELSE "C18:wire") ELSE "C18:notcalled"
      [] E.e = "reply" -> IF todo # <<>> /\ Head_.s = "reply" THEN "" ELSE "C18:notcalled"
      [] E.e = "res" -> IF todo = <<>> \/ Head_.s # "res" THEN "C18:notcalled"
                        ELSE IF Decoded(The(y), E) = [k |-> E.k, v |-> E.v] \/ OtherExc(The(y), E) THEN "" ELSE "C18:result"
      [] E.e \in {"op", "done", "end"} -> IF todo # <<>> THEN (IF Head_.s = "sets" THEN "C18:setitem" ELSE "C18:notcalled")
                                  ELSE IF E.e = "end" /\ E.s # "ok" THEN "END:" \o E.s ELSE ""
      [] E.e = "slave" -> ""
      [] E.e = "dump" -> IF d.objs[E.i].blk[E.m].v = E.v THEN "" ELSE "C18:state"
      [] OTHER -> "C18:event"

DoInst == reg' = (E.n :> (IF E.e = "inst" THEN Append(Reg(E.n), E.f)
                          ELSE IF ~E.ok THEN Reg(E.n)
                          ELSE IF E.f = 0 THEN <<>>
                          ELSE IF Has(Reg(E.n), E.f)
                               THEN LET k == CHOOSE i \in DOMAIN Reg(E.n) : Reg(E.n)[i] = E.f /\ \A j \in 1..(i - 1) : Reg(E.n)[j] # E.f
                                    IN SubSeq(Reg(E.n), 1, k - 1) \o SubSeq(Reg(E.n), k + 1, Len(Reg(E.n)))
                               ELSE Reg(E.n))) @@ reg
          /\ occ' = (IF E.e = "inst" /\ occ.n = E.n /\ occ.go THEN [occ EXCEPT !.late = @ \cup {E.f}] ELSE occ)

Observe ==
    /\ Live /\ Verdict = ""
    /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
    /\ CASE E.e \in {"inst", "uninst"} -> DoInst /\ UNCHANGED <<todo, x, y, q, p, ans, d, w, on>>
         [] E.e = "slave" -> /\ d' = [objs |-> Append(d.objs, [NewSlave(E.sig, <<1, 2, 3, 4>>) EXCEPT !.blk =
                                        [m \in {b.m : b \in {E.blk[i] : i \in DOMAIN E.blk}} |->
                                            LET b == CHOOSE z \in {E.blk[i] : i \in DOMAIN E.blk} : z.m = m
                                            IN [c |-> b.c, a |-> b.a, v |-> b.v]]]),
                                      map |-> (E.u :> Len(d.objs) + 1) @@ d.map]
                             /\ UNCHANGED <<reg, todo, occ, x, y, q, p, ans, w, on>>
         [] E.e = "h" /\ occ # NoOcc -> Following(E) /\ UNCHANGED reg
         [] E.e = "h" /\ IsHead(E) ->
              /\ occ' = NewOcc(E) /\ x' = (IF E.r THEN Vals({E.v \o Drop(The(x), Len(E.d))}) ELSE x)
              /\ UNCHANGED <<reg, todo, y, q, p, ans, d, w, on>>
         [] E.e = "h" /\ IsSet(E) ->
              /\ occ' = NewOcc(E) /\ w' = PutIn(w, CHOOSE m \in SetBlock(E) : TRUE, E.a, E.v2)
              /\ UNCHANGED <<reg, todo, x, y, q, p, ans, d, on>>
         [] E.e = "h" -> First(E) /\ UNCHANGED reg
         [] E.e = "op" -> /\ todo' = Program(E) /\ x' = FirstX(E) /\ y' = None_ /\ q' = (IF FirstX(E).k = "set" THEN The(FirstX(E)) ELSE <<>>) /\ p' = <<>> /\ ans' = NoAns
                          /\ w' = Writes2(IF E.op = "set" THEN E.i ELSE 0)
                          /\ on' = (IF E.op \in {"exec", "open"} THEN TRUE ELSE IF E.op = "close" THEN FALSE ELSE on)
                          /\ UNCHANGED <<reg, occ, d>>
         [] E.e = "wire" -> /\ todo' = Rest
                            /\ q' = (IF Head_.s = "wirex" /\ x.k = "tail" THEN E.b ELSE q)
                            /\ y' = (IF Head_.s = "wirey" THEN Vals({E.b}) ELSE y)
                            /\ x' = (IF Head_.s = "wirex" THEN Vals({E.b}) ELSE x)
                            /\ UNCHANGED <<reg, occ, p, ans, d, w, on>>
         [] E.e = "reply" -> todo' = Rest /\ y' = Vals({E.b}) /\ UNCHANGED <<reg, occ, x, q, p, ans, d, w, on>>
         [] E.e = "res" -> todo' = Rest /\ UNCHANGED <<reg, occ, x, y, q, p, ans, d, w, on>>
         [] OTHER -> UNCHANGED <<reg, todo, occ, x, y, q, p, ans, d, w, on>>
    /\ (l = Len(Ev)) => PrintT(<<"ACC", ToString(t)>>)
\* nothing more can be done without the event
Stuck == (occ = NoOcc \/ Left # <<>>) /\ (todo = <<>> \/ occ # NoOcc \/ SilentNext = {})
Reject == /\ Live /\ Verdict # "" /\ Stuck = TRUE
          /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> Verdict, ev |-> E, todo |-> Take([i \in DOMAIN todo |-> todo[i].s], 3),
                                        step |-> IF todo # <<>> /\ Head_.s = "h" THEN Head_.n ELSE ""])>>)
          /\ dead' = TRUE /\ UNCHANGED <<t, l, reg, todo, occ, x, y, q, p, ans, d, w, on>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ dead = FALSE /\ reg = [n \in {} |-> <<>>] /\ todo = <<>> /\ occ = NoOcc
        /\ x = None_ /\ y = None_ /\ q = <<>> /\ p = <<>> /\ ans = NoAns /\ d = NoSlaves
        /\ w = NewSlave(FALSE, <<1, 2, 3, 4>>) /\ on = FALSE
Next == Silent \/ EndOcc \/ Observe \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
