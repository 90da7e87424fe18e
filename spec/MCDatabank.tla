----------------------------- MODULE MCDatabank -----------------------------
(* Every short history of registering and removing slaves, of requests to    *)
(* unit ids and of broadcasts.  Each history is printed with the results the *)
(* specification gives; the driver replays it on a real databank.            *)
EXTENDS Databank, Json, SequencesExt

CONSTANTS Depth, Emit

\* a new slave gets the holding registers 0 and 1, slaves with an odd number only the first
Blocks(s, n) == ApiAdd(s, "h", Holding, 0, IF n % 2 = 1 THEN 1 ELSE 2).s
WritePdu(a, v) == <<6>> \o W(a) \o W(v)

Op == {[op |-> "add", u |-> i, a |-> 0, v |-> 0] : i \in {0, 1, 2, 256}}
      \cup {[op |-> "rem", u |-> i, a |-> 0, v |-> 0] : i \in {1, 2}}
      \cup {[op |-> "clear", u |-> 0, a |-> 0, v |-> 0]}
      \cup {[op |-> "get", u |-> i, a |-> 0, v |-> 0] : i \in {1}}
      \cup {[op |-> "write", u |-> i, a |-> 0, v |-> 1] : i \in {0, 1, 2}}
      \cup {[op |-> "write", u |-> i, a |-> 1, v |-> 2] : i \in {0}}
      \cup {[op |-> "read", u |-> i, a |-> 0, v |-> 0] : i \in {0, 1}}

VARIABLES d, hist
vars == <<d, hist>>
Init == d = NoSlaves /\ hist = <<>>

\* the result of an operation: <<state after, ok, reply>>
Do(o) == CASE o.op = "add" -> LET r == AddSlave(d, o.u, FALSE, <<1, 2, 3, 4>>) IN
                 <<IF r.k = "ok" THEN LET n == Len(r.d.objs) IN [r.d EXCEPT !.objs[n] = Blocks(r.d.objs[n], n)] ELSE d,
                   r.k = "ok", <<>>>>
           [] o.op = "rem" -> LET r == RemoveSlave(d, o.u) IN <<r.d, r.k = "ok", <<>>>>
           [] o.op = "clear" -> <<ClearSlaves(d), TRUE, <<>>>>
           [] o.op = "get" -> <<d, GetSlave(d, o.u) # 0, <<GetSlave(d, o.u)>>>>
           [] OTHER ->
                LET p == IF o.op = "write" THEN WritePdu(o.a, o.v) ELSE <<3, 0, 0, 0, 1>> IN
                IF o.u = 0 THEN <<BroadcastAll(d, p), FALSE, <<>>>>
                ELSE IF o.u \notin DOMAIN d.map THEN <<d, FALSE, <<>>>>
                ELSE LET r == Request(d.objs[d.map[o.u]], p) IN
                     <<[d EXCEPT !.objs[d.map[o.u]] = r.s], TRUE,
                       IF r.k = "ok" THEN <<p[1]>> \o r.rep ELSE <<p[1] + 128, CHOOSE c \in r.codes : TRUE>>>>

Step(o) == /\ Len(hist) < Depth
           /\ LET r == Do(o) IN d' = r[1] /\ hist' = Append(hist, [o |-> o, ok |-> r[2], r |-> r[3]])
DoAdd == \E o \in Op : o.op = "add" /\ Step(o)
DoRemove == \E o \in Op : o.op = "rem" /\ Step(o)
DoClear == \E o \in Op : o.op = "clear" /\ Step(o)
DoRequest == \E o \in Op : o.op \in {"write", "read", "get"} /\ Step(o)
Next == DoAdd \/ DoRemove \/ DoClear \/ DoRequest
Spec == Init /\ [][Next]_vars

Registered == {d.map[i] : i \in DOMAIN d.map}
\* only valid ids are registered and no slave is registered twice
TypeOK == /\ DOMAIN d.map \subseteq 1..255
          /\ \A i, j \in DOMAIN d.map : d.map[i] = d.map[j] => i = j
          /\ \A i \in 1..Len(d.objs) : Disjoint(d.objs[i])
\* a slave which is not registered does not change, a request changes only the slave it names
Isolated == [][ \A i \in 1..Len(d.objs) :
                  LET o == hist'[Len(hist')].o IN
                  (d'.objs[i] # d.objs[i]) =>
                     /\ o.op = "write"
                     /\ i \in Registered
                     /\ o.u # 0 => (o.u \in DOMAIN d.map /\ d.map[o.u] = i) ]_vars
\* a broadcast write is carried out by every registered slave which has the register
Everywhere == [][ LET o == hist'[Len(hist')].o IN
                  (o.op = "write" /\ o.u = 0) =>
                     \A i \in Registered : InBlock(d.objs[i], Holding, o.a, 1) =>
                        Read(d'.objs[i], Holding, o.a, 1) = <<o.v>> ]_vars

Export == (Emit /\ Len(hist) = Depth) =>
    PrintT(<<"PATH", ToJson([h |-> hist, objs |-> [i \in 1..Len(d.objs) |-> d.objs[i].blk["h"].v]])>>)
=============================================================================
