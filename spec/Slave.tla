------------------------------- MODULE Slave --------------------------------
(* The state of one Modbus slave and everything that can be done to it.      *)
(*                                                                           *)
(* A slave is a record                                                       *)
(*   sig   TRUE when registers are signed                                    *)
(*   cls   cls[t] is the memory which backs table t; tables created over one *)
(*         list share their memory (1 coils, 2 discrete inputs, 3 holding    *)
(*         registers, 4 analog inputs)                                       *)
(*   blk   the blocks: name -> [c: memory, a: first address, v: values]      *)
(*                                                                           *)
(* Request(s, pdu) gives what a request has to do: its kind, the state after *)
(* it and what may be answered. Operators named Api... do the same for the   *)
(* calls of the Python interface.                                            *)
EXTENDS ModbusData, TLC

Coils == 1
Inputs == 2
Holding == 3
Analog == 4
Tables == 1..4

NoBlocks == [n \in {} |-> 0]
NewSlave(sig, cls) == [sig |-> sig, cls |-> cls, blk |-> NoBlocks]

Names(s) == DOMAIN s.blk
BlockEnd(b) == b.a + Len(b.v)                        \* first address after the block

\* the blocks of memory c which contain the whole range
Holding_(s, c, a, n) == {m \in Names(s) : s.blk[m].c = c /\ a >= s.blk[m].a /\ a + n <= BlockEnd(s.blk[m])}
InBlock(s, t, a, n) == Holding_(s, s.cls[t], a, n) # {}
BlockOf(s, t, a, n) == CHOOSE m \in Holding_(s, s.cls[t], a, n) : TRUE

Read(s, t, a, n) == LET b == s.blk[BlockOf(s, t, a, n)] IN SubSeq(b.v, a - b.a + 1, a - b.a + n)

Splice(v, o, new) == SubSeq(v, 1, o) \o new \o SubSeq(v, o + Len(new) + 1, Len(v))
PutIn(s, m, a, new) == [s EXCEPT !.blk[m].v = Splice(s.blk[m].v, a - s.blk[m].a, new)]
Write(s, t, a, new) == PutIn(s, BlockOf(s, t, a, Len(new)), a, new)

\* the abstract view: what every (memory, address) contains
Cells(s) == UNION {{<<s.blk[m].c, s.blk[m].a + i>> : i \in 0..(Len(s.blk[m].v) - 1)} : m \in Names(s)}
Cell(s, x) == LET m == CHOOSE n \in Names(s) : s.blk[n].c = x[1] /\ x[2] >= s.blk[n].a /\ x[2] < BlockEnd(s.blk[n])
              IN s.blk[m].v[x[2] - s.blk[m].a + 1]
View(s) == [x \in Cells(s) |-> Cell(s, x)]

Disjoint(s) == \A m, n \in Names(s) : (m # n /\ s.blk[m].c = s.blk[n].c) =>
                  (BlockEnd(s.blk[m]) <= s.blk[n].a \/ BlockEnd(s.blk[n]) <= s.blk[m].a)

Stored(s, w) == IF s.sig THEN Signed(w) ELSE w  \* a word from the wire as it is stored
Wire(v) == Unsigned(v)                          \* a stored value as it is sent

-----------------------------------------------------------------------------
(* Requests.  The result is a record                                         *)
(*   k      "ok" the request is carried out, "refuse" it is not              *)
(*   s      the state after it                                               *)
(*   rep    k = "ok": the answer, without the function code                  *)
(*   codes  k = "refuse": the exception codes which name the fault           *)
(*   long   bytes follow the request: an implementation may refuse it then   *)

AnyCode == 1..255
Ok(s, rep) == [k |-> "ok", s |-> s, rep |-> rep, codes |-> {}, long |-> FALSE]
Refuse(s, codes) == [k |-> "refuse", s |-> s, rep |-> <<>>, codes |-> codes, long |-> FALSE]

\* value: the request names a bad quantity, byte count or value; address: a bad range
Faults(value, address) == (IF value THEN {3} ELSE {}) \cup (IF address THEN {2} ELSE {})

ReadBits(s, t, p) ==
    LET a == Word(p, 2)  q == Word(p, 4)
        f == Faults(q \notin 1..2000, ~InBlock(s, t, a, q))
    IN IF f # {} THEN Refuse(s, f)
       ELSE LET bytes == PackBits(Read(s, t, a, q)) IN Ok(s, <<Len(bytes)>> \o bytes)

RegBytes(s, a, t, q) == <<2 * q>> \o WordsToBytes([i \in 1..q |-> Wire(Read(s, t, a, q)[i])])

ReadRegs(s, t, p) ==
    LET a == Word(p, 2)  q == Word(p, 4)
        f == Faults(q \notin 1..125, ~InBlock(s, t, a, q))
    IN IF f # {} THEN Refuse(s, f) ELSE Ok(s, RegBytes(s, a, t, q))

WriteCoil(s, p) ==
    LET a == Word(p, 2)  v == Word(p, 4)
        f == Faults(v \notin {0, 65280}, ~InBlock(s, Coils, a, 1))
    IN IF f # {} THEN Refuse(s, f)
       ELSE Ok(Write(s, Coils, a, <<IF v = 0 THEN 0 ELSE 1>>), SubSeq(p, 2, 5))

WriteReg(s, p) ==
    LET a == Word(p, 2)  f == Faults(FALSE, ~InBlock(s, Holding, a, 1))
    IN IF f # {} THEN Refuse(s, f)
       ELSE Ok(Write(s, Holding, a, <<Stored(s, Word(p, 4))>>), SubSeq(p, 2, 5))

WriteCoils(s, p) ==
    LET a == Word(p, 2)  q == Word(p, 4)  n == p[6]
        f == Faults(q \notin 1..1968 \/ n # CeilDiv(q, 8), ~InBlock(s, Coils, a, q))
    IN IF f # {} THEN Refuse(s, IF Len(p) < 6 + n THEN AnyCode ELSE f)
       ELSE IF Len(p) < 6 + n THEN Refuse(s, AnyCode)
       ELSE Ok(Write(s, Coils, a, UnpackBits(SubSeq(p, 7, 6 + n), q)), SubSeq(p, 2, 5))

WireRegs(s, p, o, q) == [i \in 1..q |-> Stored(s, Word(p, o + 2 * i - 1))]

WriteRegs(s, p) ==
    LET a == Word(p, 2)  q == Word(p, 4)  n == p[6]
        f == Faults(q \notin 1..123 \/ n # 2 * q, ~InBlock(s, Holding, a, q))
    IN IF f # {} THEN Refuse(s, IF Len(p) < 6 + n THEN AnyCode ELSE f)
       ELSE IF Len(p) < 6 + n THEN Refuse(s, AnyCode)
       ELSE Ok(Write(s, Holding, a, WireRegs(s, p, 6, q)), SubSeq(p, 2, 5))

\* (current AND and_mask) OR (or_mask AND NOT and_mask)
Masked(cur, am, om) == (cur & am) | (om & (65535 - am))
MaskWrite(s, p) ==
    LET a == Word(p, 2)  f == Faults(FALSE, ~InBlock(s, Holding, a, 1))
    IN IF f # {} THEN Refuse(s, f)
       ELSE LET cur == Wire(Read(s, Holding, a, 1)[1])
            IN Ok(Write(s, Holding, a, <<Stored(s, Masked(cur, Word(p, 4), Word(p, 6)))>>), SubSeq(p, 2, 7))

\* the write is carried out before the read
ReadWrite(s, p) ==
    LET ra == Word(p, 2)  rq == Word(p, 4)  wa == Word(p, 6)  wq == Word(p, 8)  n == p[10]
        f == Faults(rq \notin 1..125 \/ wq \notin 1..123 \/ n # 2 * wq,
                    ~InBlock(s, Holding, ra, rq) \/ ~InBlock(s, Holding, wa, wq))
    IN IF f # {} THEN Refuse(s, IF Len(p) < 10 + n THEN AnyCode ELSE f)
       ELSE IF Len(p) < 10 + n THEN Refuse(s, AnyCode)
       ELSE LET s2 == Write(s, Holding, wa, WireRegs(s, p, 10, wq)) IN Ok(s2, RegBytes(s2, ra, Holding, rq))

Supported == {1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23}
\* how many bytes the request needs before its length is known
HeadLen(fc) == CASE fc = 7 -> 1 [] fc \in {1, 2, 3, 4, 5, 6} -> 5 [] fc \in {15, 16} -> 6
                 [] fc = 22 -> 7 [] fc = 23 -> 10 [] OTHER -> 1
FullLen(p) == CASE p[1] \in {15, 16} -> 6 + p[6] [] p[1] = 23 -> 10 + p[10] [] OTHER -> HeadLen(p[1])
Writes == {5, 6, 15, 16, 22, 23}
PureReads == {1, 2, 3, 4}

Request(s, p) ==
    LET fc == p[1] IN
    IF fc \notin Supported THEN Refuse(s, {1})
    ELSE IF Len(p) < HeadLen(fc) THEN Refuse(s, AnyCode)
    ELSE LET r == CASE fc = 1 -> ReadBits(s, Coils, p)
                    [] fc = 2 -> ReadBits(s, Inputs, p)
                    [] fc = 3 -> ReadRegs(s, Holding, p)
                    [] fc = 4 -> ReadRegs(s, Analog, p)
                    [] fc = 5 -> WriteCoil(s, p)
                    [] fc = 6 -> WriteReg(s, p)
                    [] fc = 7 -> Ok(s, <<0>>)
                    [] fc = 15 -> WriteCoils(s, p)
                    [] fc = 16 -> WriteRegs(s, p)
                    [] fc = 22 -> MaskWrite(s, p)
                    [] fc = 23 -> ReadWrite(s, p)
         IN [r EXCEPT !.long = Len(p) > FullLen(p)]

\* is obs, a reply pdu, what may be answered?
IsException(p, obs) == Len(obs) = 2 /\ obs[1] = p[1] + 128
Answers(p, r, obs) ==
    IF IsException(p, obs) THEN obs[2] \in (IF r.k = "refuse" /\ ~r.long THEN r.codes ELSE AnyCode) /\ (r.k = "refuse" \/ r.long)
    ELSE r.k = "ok" /\ (\/ obs = <<p[1]>> \o r.rep
                        \/ r.long /\ p[1] \in {5, 6, 22} /\ obs = p)
\* the state after a request which was answered with obs
After(s, p, r, obs) == IF IsException(p, obs) THEN s ELSE r.s

-----------------------------------------------------------------------------
(* The Python interface.  [k: "ok" or "err", s: state after, v: values]      *)
Fine(s, v) == [k |-> "ok", s |-> s, v |-> v]
Error(s) == [k |-> "err", s |-> s, v |-> <<>>]

ApiAdd(s, name, t, a, n) ==
    IF \/ n <= 0 \/ a < 0 \/ name \in Names(s) \/ t \notin Tables
    THEN Error(s)
    ELSE IF \E m \in Names(s) : s.blk[m].c = s.cls[t] /\ a < BlockEnd(s.blk[m]) /\ s.blk[m].a < a + n
    THEN Error(s)
    ELSE Fine([s EXCEPT !.blk = (name :> [c |-> s.cls[t], a |-> a, v |-> [i \in 1..n |-> 0]]) @@ s.blk], <<>>)

ApiRemove(s, name) ==
    IF name \notin Names(s) THEN Error(s)
    ELSE Fine([s EXCEPT !.blk = [m \in Names(s) \ {name} |-> s.blk[m]]], <<>>)

ApiRemoveAll(s) == Fine([s EXCEPT !.blk = NoBlocks], <<>>)

Within(s, name, a, n) == name \in Names(s) /\ a >= s.blk[name].a /\ a + n <= BlockEnd(s.blk[name])

ApiSet(s, name, a, vals) == IF ~Within(s, name, a, Len(vals)) THEN Error(s) ELSE Fine(PutIn(s, name, a, vals), <<>>)
ApiGet(s, name, a, n) ==
    IF ~Within(s, name, a, n) THEN Error(s)
    ELSE Fine(s, SubSeq(s.blk[name].v, a - s.blk[name].a + 1, a - s.blk[name].a + n))

\* one call, given as a record with the operation and its arguments
Api(s, e) == CASE e.op = "add" -> ApiAdd(s, e.name, e.t, e.a, e.n)
               [] e.op = "rem" -> ApiRemove(s, e.name)
               [] e.op = "remall" -> ApiRemoveAll(s)
               [] e.op = "set" -> ApiSet(s, e.name, e.a, e.vals)
               [] e.op = "get" -> ApiGet(s, e.name, e.a, e.n)
=============================================================================
