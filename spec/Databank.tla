------------------------------ MODULE Databank ------------------------------
(* Several slaves behind one databank.                                       *)
(*   objs  the slaves ever created, in order                                 *)
(*   map   unit id -> index in objs, the slaves registered now               *)
EXTENDS Slave

NoSlaves == [objs |-> <<>>, map |-> [i \in {} |-> 0]]

AddSlave(d, id, sig, cls) ==
    IF id \notin 1..255 \/ id \in DOMAIN d.map THEN [k |-> "err", d |-> d]
    ELSE [k |-> "ok", d |-> [objs |-> Append(d.objs, NewSlave(sig, cls)),
                             map |-> (id :> Len(d.objs) + 1) @@ d.map]]
RemoveSlave(d, id) ==
    IF id \notin DOMAIN d.map THEN [k |-> "err", d |-> d]
    ELSE [k |-> "ok", d |-> [d EXCEPT !.map = [i \in DOMAIN d.map \ {id} |-> d.map[i]]]]
ClearSlaves(d) == [d EXCEPT !.map = [i \in {} |-> 0]]
GetSlave(d, id) == IF id \in DOMAIN d.map THEN d.map[id] ELSE 0

ModbusFc(p) == Len(p) >= 1 /\ p[1] \in 1..127

\* what one slave makes of a broadcast: reads are not carried out
Broadcast1(s, p) == IF p[1] \in PureReads THEN s ELSE Request(s, p).s
BroadcastAll(d, p) ==
    LET hit == {d.map[i] : i \in DOMAIN d.map}
    IN [d EXCEPT !.objs = [i \in 1..Len(d.objs) |-> IF i \in hit THEN Broadcast1(d.objs[i], p) ELSE d.objs[i]]]

\* a framed request to unit u: [d |-> state after it, k |-> "reply", "none" or, outside of the standard, "any", r |-> its answer]
Nothing == Ok(NewSlave(FALSE, <<1, 2, 3, 4>>), <<>>)
Serve(d, u, p) ==
    IF ~ModbusFc(p) THEN [d |-> d, k |-> "any", r |-> Nothing]
    ELSE IF u = 0 THEN [d |-> BroadcastAll(d, p), k |-> "none", r |-> Nothing]
    ELSE IF u \notin DOMAIN d.map THEN [d |-> d, k |-> "none", r |-> Nothing]
    ELSE LET o == d.map[u]  r == Request(d.objs[o], p) IN [d |-> [d EXCEPT !.objs[o] = r.s], k |-> "reply", r |-> r]
=============================================================================
