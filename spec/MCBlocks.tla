------------------------------ MODULE MCBlocks ------------------------------
(* Exhaustive exploration of the block registry of one slave: every history  *)
(* of adding and removing blocks over a few names, tables, addresses and     *)
(* sizes, with separate and with shared memories.                            *)
EXTENDS Slave, Json, SequencesExt

CONSTANTS Emit, NameSet, MaxA, MaxN
Sep == [t \in Tables |-> t]
Shared == [t \in Tables |-> IF t \in {1, 3} THEN 1 ELSE IF t = 2 THEN 2 ELSE 4]

Adds == {[op |-> "add", name |-> m, t |-> x, a |-> a, n |-> n] : m \in NameSet, x \in {1, 3}, a \in 0..MaxA, n \in 1..MaxN}
        \cup {[op |-> "add", name |-> "a", t |-> x, a |-> a, n |-> n] :
                x \in {0, 1, 5}, a \in {-1, 0}, n \in {-1, 0, 1}}
Rems == {[op |-> "rem", name |-> m, t |-> 0, a |-> 0, n |-> 0] : m \in NameSet}
        \cup {[op |-> "remall", name |-> "", t |-> 0, a |-> 0, n |-> 0]}
Gets == {[op |-> "get", name |-> m, t |-> 0, a |-> a, n |-> n] : m \in NameSet, a \in 0..MaxA, n \in 1..2}
Calls == Adds \cup Rems \cup Gets

VARIABLE s
Init == s \in {NewSlave(FALSE, Sep), NewSlave(FALSE, Shared)}
AddBlock == \E e \in Adds : s' = Api(s, e).s
RemoveBlocks == \E e \in Rems : s' = Api(s, e).s
Next == AddBlock \/ RemoveBlocks
Spec == Init /\ [][Next]_s

Inv == /\ Disjoint(s)
       /\ \A e \in Adds :
            LET r == Api(s, e)  c == s.cls[Max(1, Min(4, e.t))] IN
            /\ r.k = "ok" <=> /\ e.n > 0 /\ e.a >= 0 /\ e.t \in Tables /\ e.name \notin Names(s)
                              /\ \A x \in Cells(s) : ~(x[1] = c /\ x[2] >= e.a /\ x[2] < e.a + e.n)
            /\ r.k = "err" => r.s = s
            /\ r.k = "ok" => /\ \A x \in Cells(s) : Cell(r.s, x) = Cell(s, x)
                             /\ Cells(r.s) = Cells(s) \cup {<<c, e.a + i>> : i \in 0..(e.n - 1)}
       /\ \A e \in Rems : LET r == Api(s, e) IN
            /\ r.k = "err" => r.s = s
            /\ e.op = "remall" => r.k = "ok" /\ Cells(r.s) = {}

JsonState(st) == [sig |-> st.sig, cls |-> st.cls, names |-> SetToSeq(Names(st)),
                  blocks |-> LET q == SetToSeq(Names(st)) IN [i \in 1..Len(q) |-> st.blk[q[i]]]]
CallSeq == SetToSeq(Calls)
Export == Emit =>
    PrintT(<<"STATE", ToJson([s |-> JsonState(s),
        calls |-> [i \in 1..Len(CallSeq) |-> LET r == Api(s, CallSeq[i]) IN
                    <<IF r.k = "ok" THEN 1 ELSE 0, r.v, IF r.s = s THEN <<>> ELSE <<JsonState(r.s)>>>>]])>>)
ASSUME Emit => PrintT(<<"OPS", ToJson(CallSeq)>>)
=============================================================================
