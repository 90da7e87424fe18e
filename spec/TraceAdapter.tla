---------------------------- MODULE TraceAdapter ----------------------------
(* Checks what the methods of PyModbusClientTCP do to and return from slave  *)
(* 1 of a server.                                                            *)
(* Events: api(op, ..., ok, v) on the slave, slave(there), up, down (of the  *)
(* server), open(ok), close(ok), isopen(v), call(m, a, b, k, v): a method    *)
(* with its arguments; k is what it returned: "list" (values v), "other",    *)
(* "modbus" (ModbusError with code v[1]) or "exc"; dump(b): all the blocks.  *)
EXTENDS Codec, Databank, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES t, l, dead, d, up, conn
vars == <<t, l, dead, d, up, conn>>
\* conn: what is_open returns: "yes", "no" or "any"

Ev == Traces[t].ev
E == Ev[l]
Live == ~dead /\ l <= Len(Ev)

Call(fc, addr, qty, val) == [fc |-> fc, slave |-> 1, addr |-> addr, qty |-> qty, val |-> val, vals |-> <<>>, waddr |-> 0, am |-> 0, om |-> 0,
                             fn |-> <<>>, fa |-> <<>>, fq |-> <<>>, tup |-> TRUE, fmt |-> [le |-> FALSE, items |-> <<>>], fvals |-> <<>>,
                             pdu |-> <<>>, raw |-> FALSE, exp |-> -1]
Code(m) == CASE m = "read_coils" -> 1 [] m = "read_discrete_inputs" -> 2 [] m = "read_input_registers" -> 4
             [] m = "write_single_coil" -> 5 [] m = "write_single_register" -> 6
Reads(m) == Code(m) < 5
Made == IF Reads(E.m) THEN Call(Code(E.m), E.a, E.b, 0) ELSE Call(Code(E.m), E.a, 0, E.b)

There == 1 \in DOMAIN d.map
Slave1 == d.objs[d.map[1]]
\* [k: what may be returned, v: values, codes, s: the slave after it]
Nothing0 == [k |-> "exc", v |-> <<>>, codes |-> {}, d |-> d]
Expected == IF ~up \/ ~Expressible(Made) \/ ~There THEN Nothing0
            ELSE LET p == EncodePdu(Made)  r == Request(Slave1, p) IN
                 IF r.k = "refuse" THEN [k |-> "modbus", v |-> <<>>, codes |-> r.codes, d |-> d]
                 ELSE [k |-> "ok", v |-> [i \in DOMAIN DecodePdu(Made, <<p[1]>> \o r.rep).v |->
                                             LET b == DecodePdu(Made, <<p[1]>> \o r.rep).v[i] IN
                                             IF Len(b) = 1 THEN b[1] ELSE Word(b, 1)],
                       codes |-> {}, d |-> [d EXCEPT !.objs[d.map[1]] = r.s]]
Fits(x) == CASE x.k = "exc" -> E.k \in {"exc", "modbus"}
             [] x.k = "modbus" -> E.k = "modbus" /\ E.v[1] \in x.codes
             [] OTHER -> IF Reads(E.m) THEN E.k = "list" /\ E.v = x.v ELSE E.k \in {"list", "other"}

Blocks(s) == {<<m, s.blk[m].a, s.blk[m].v>> : m \in Names(s)}
Verdict ==
    CASE E.e = "api" -> IF There /\ Api(Slave1, E).k = (IF E.ok THEN "ok" ELSE "err") THEN "" ELSE "C24:api"
      [] E.e \in {"slave", "up", "down"} -> ""
      [] E.e = "open" -> IF E.ok = up THEN "" ELSE "C24:open"
      [] E.e = "close" -> IF E.ok THEN "" ELSE "C24:close"
      [] E.e = "isopen" -> IF conn = "any" \/ (E.k = "bool" /\ E.v = (conn = "yes")) THEN "" ELSE "C24:isopen"
      [] E.e = "call" -> IF Fits(Expected) THEN "" ELSE IF Expected.k = "ok" THEN "C24:result" ELSE "C24:error"
      [] E.e = "dump" -> IF ~There \/ {<<E.b[i][1], E.b[i][2], E.b[i][3]>> : i \in DOMAIN E.b} = Blocks(Slave1) THEN "" ELSE "C24:effect"
      [] E.e = "end" -> IF E.s = "ok" THEN "" ELSE "END:" \o E.s
      [] OTHER -> "event"
Observe ==
    /\ Live /\ Verdict = "" /\ l' = l + 1 /\ UNCHANGED <<t, dead>>
    /\ d' = (CASE E.e = "api" -> [d EXCEPT !.objs[d.map[1]] = Api(Slave1, E).s]
               [] E.e = "slave" -> IF E.there THEN AddSlave(d, 1, FALSE, <<1, 2, 3, 4>>).d ELSE RemoveSlave(d, 1).d
               [] E.e = "call" -> Expected.d
               [] OTHER -> d)
    /\ up' = (CASE E.e = "up" -> TRUE [] E.e = "down" -> FALSE [] OTHER -> up)
    /\ conn' = (CASE E.e = "open" -> (IF E.ok THEN "yes" ELSE "no")
                  [] E.e = "close" -> "no"
                  \* when the server goes, the link may be found broken or not
                  [] E.e = "call" -> IF Expected.k \in {"ok", "modbus"} THEN "yes" ELSE "any"
                  [] OTHER -> conn)
    /\ (l = Len(Ev)) => PrintT(<<"ACC", ToString(t)>>)
Reject == /\ Live /\ Verdict # ""
          /\ PrintT(<<"REJECT", ToJson([t |-> t, at |-> l, clause |-> Verdict, ev |-> E])>>)
          /\ dead' = TRUE /\ UNCHANGED <<t, l, d, up, conn>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ dead = FALSE /\ d = NoSlaves /\ up = FALSE /\ conn = "no"
Next == Observe \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
