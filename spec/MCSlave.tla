------------------------------ MODULE MCSlave -------------------------------
(* Exhaustive exploration of Slave.tla over small block layouts: every       *)
(* request and API access of Ops in every reachable state.  Each state is    *)
(* printed with what every operation does in it; the conformance driver      *)
(* replays all of these transitions on the real Slave.                       *)
EXTENDS Slave, Json, SequencesExt

CONSTANTS Emit                                  \* print the transitions?

Sep == [t \in Tables |-> t]
Shared == [t \in Tables |-> IF t \in {1, 2} THEN 1 ELSE 3]
Layout(sig, cls, adds) ==
    LET RECURSIVE Go(_, _)
        Go(s, i) == IF i > Len(adds) THEN s
                    ELSE Go(ApiAdd(s, adds[i][1], adds[i][2], adds[i][3], adds[i][4]).s, i + 1)
    IN Go(NewSlave(sig, cls), 1)

Layouts == { Layout(FALSE, Sep, <<>>),
             Layout(FALSE, Sep, <<<<"a", 1, 1, 3>>>>),
             Layout(FALSE, Sep, <<<<"a", 3, 1, 3>>>>),
             Layout(TRUE, Sep, <<<<"a", 3, 1, 2>>>>),
             Layout(FALSE, Sep, <<<<"a", 1, 0, 2>>, <<"b", 1, 2, 1>>>>),      \* adjacent blocks
             Layout(FALSE, Sep, <<<<"a", 3, 2, 1>>, <<"b", 3, 0, 2>>>>),
             Layout(FALSE, Sep, <<<<"a", 1, 0, 1>>, <<"b", 3, 0, 1>>>>),      \* same address, two tables
             Layout(FALSE, Sep, <<<<"a", 2, 0, 2>>, <<"b", 4, 1, 2>>>>),
             Layout(TRUE, Shared, <<<<"a", 1, 0, 2>>, <<"b", 4, 1, 1>>>>),
             Layout(FALSE, Shared, <<<<"a", 3, 0, 2>>, <<"b", 2, 1, 1>>>>) }

Words == {0, 65535, 240}
Rd(fc) == {<<fc>> \o W(a) \o W(q) : a \in 0..3, q \in {0, 1, 2, 3}}
          \cup {<<fc, 0, 1, 0>>, <<fc>>, <<fc>> \o W(65535) \o W(1), <<fc>> \o W(1) \o W(65535)}
          \cup {<<fc>> \o W(0) \o W(q) : q \in {125, 126, 2000, 2001}}
Wc == {<<5>> \o W(a) \o W(v) : a \in 0..3, v \in {0, 65280, 255, 1}} \cup {<<5, 0, 1>>, <<5, 0, 1, 255>>}
Wr == {<<6>> \o W(a) \o W(v) : a \in 0..3, v \in Words} \cup {<<6, 0, 1>>, <<6, 0, 1, 255>>}
Wcs == {<<15>> \o W(a) \o W(q) \o <<n>> \o d : a \in 0..2, q \in 0..3, n \in {0, 1, 2}, d \in {<<>>, <<2>>, <<253>>}}
       \cup {<<15>> \o W(0) \o W(1969) \o <<247, 1>>, <<15>> \o W(0) \o W(9) \o <<2, 1, 1>>}
Wrs == {<<16>> \o W(a) \o W(q) \o <<n>> \o d : a \in 0..2, q \in 0..2, n \in {0, 2, 3, 4},
            d \in {<<>>, <<255>>, <<0, 240>>, <<0, 240, 255>>, <<0, 240, 255, 255>>}}
       \cup {<<16>> \o W(0) \o W(124) \o <<248, 1>>}
Mw == {<<22>> \o W(a) \o W(m) \o W(o) : a \in 0..3, m \in Words, o \in {0, 240}} \cup {<<22, 0, 1, 0, 0, 0>>}
Rw == {<<23>> \o W(r) \o W(q) \o W(a) \o W(k) \o <<n>> \o d :
            r \in 0..2, q \in 0..2, a \in 0..2, k \in {0, 1, 2}, n \in {2, 4}, d \in {<<0, 240>>, <<255, 255, 0, 0>>}}
       \cup {<<23>> \o W(1) \o W(q) \o W(1) \o W(1) \o <<2, 0, 240>> : q \in {125, 126}}
       \cup {<<23, 0, 0, 0, 1, 0, 0, 0, 1>>}
Other == {<<7>>, <<8, 0, 0, 0, 0>>, <<11>>, <<43, 14, 1, 0>>, <<20, 7, 6, 0, 1, 0, 0, 0, 1>>, <<127, 1>>, <<9>>}
Pdus == UNION {Rd(fc) : fc \in PureReads} \cup Wc \cup Wr \cup Wcs \cup Wrs \cup Mw \cup Rw \cup Other

Sets == {[op |-> "set", name |-> m, a |-> a, vals |-> v] : m \in {"a", "b"}, a \in 0..3, v \in {<<1>>, <<0, 1>>}}
Gets == {[op |-> "get", name |-> m, a |-> a, n |-> n] : m \in {"a", "b", "c"}, a \in 0..3, n \in 1..3}
Calls == Sets \cup Gets

VARIABLE s
Init == s \in Layouts
DoRequest(p) == s' = Request(s, p).s
DoCall(e) == s' = Api(s, e).s
Next == (\E p \in Pdus : DoRequest(p)) \/ (\E e \in Calls : DoCall(e))
Spec == Init /\ [][Next]_s

-----------------------------------------------------------------------------
(* What a request may touch, said without the operators above                *)
Named(st, p) ==
    IF p[1] \notin Writes \/ Len(p) < HeadLen(p[1]) THEN {}
    ELSE LET c == st.cls[IF p[1] \in {5, 15} THEN Coils ELSE Holding]
             a == IF p[1] = 23 THEN Word(p, 6) ELSE Word(p, 2)
             n == CASE p[1] \in {5, 6, 22} -> 1 [] p[1] \in {15, 16} -> Word(p, 4) [] OTHER -> Word(p, 8)
         IN {<<c, a + i>> : i \in 0..(n - 1)}

TypeOK == /\ Disjoint(s)
          /\ \A x \in Cells(s) : Cell(s, x) \in (-32768)..65535
Frame == \A p \in Pdus :
            LET r == Request(s, p)  v == View(s)  w == View(r.s) IN
            /\ DOMAIN w = DOMAIN v                                       \* no block appears or goes
            /\ r.k = "refuse" => r.s = s                                 \* a refused request changes nothing
            /\ \A x \in DOMAIN v \ Named(s, p) : w[x] = v[x]              \* nor a write what it doesn't name
            /\ r.k = "ok" /\ p[1] \in PureReads \cup {7} => r.s = s
            /\ r.k = "refuse" <=> r.codes # {}
            /\ r.k = "ok" /\ p[1] \in {6, 16} => \A x \in Named(s, p) :
                  Wire(w[x]) = Word(p, IF p[1] = 6 THEN 4 ELSE 7 + 2 * (x[2] - Word(p, 2)))

\* a value which was written is what the next read returns (holding registers through 16 and 3)
ReadBack == \A p \in Wrs : LET r == Request(s, p) IN
              r.k = "ok" => Request(r.s, <<3>> \o SubSeq(p, 2, 5)).rep = <<p[6]>> \o SubSeq(p, 7, 6 + p[6])

PduSeq == SetToSeq(Pdus)
CallSeq == SetToSeq(Calls)
Out(st) == [n \in Names(st) |-> [c |-> st.blk[n].c, a |-> st.blk[n].a, v |-> st.blk[n].v]]
JsonState(st) == [sig |-> st.sig, cls |-> st.cls, names |-> SetToSeq(Names(st)),
                  blocks |-> LET q == SetToSeq(Names(st)) IN [i \in 1..Len(q) |-> st.blk[q[i]]]]
Export == Emit =>
    PrintT(<<"STATE", ToJson([s |-> JsonState(s),
        reqs |-> [i \in 1..Len(PduSeq) |-> LET r == Request(s, PduSeq[i]) IN
                    <<IF r.k = "ok" THEN 1 ELSE 0, r.rep, SetToSeq(IF r.codes = AnyCode THEN {0} ELSE r.codes),
                      IF r.long THEN 1 ELSE 0, IF r.s = s THEN <<>> ELSE <<JsonState(r.s)>>>>],
        calls |-> [i \in 1..Len(CallSeq) |-> LET r == Api(s, CallSeq[i]) IN
                    <<IF r.k = "ok" THEN 1 ELSE 0, r.v, IF r.s = s THEN <<>> ELSE <<JsonState(r.s)>>>>]])>>)
ASSUME Emit => PrintT(<<"OPS", ToJson([pdus |-> PduSeq, calls |-> CallSeq])>>)
=============================================================================
