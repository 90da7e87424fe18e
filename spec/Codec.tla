------------------------------- MODULE Codec --------------------------------
(* The master's side of the Modbus application protocol: how a call of       *)
(* execute is encoded as a request and what a reply means to it.             *)
(* A call is a record                                                        *)
(*   fc slave addr qty     numbers                                           *)
(*   val                   the value written by functions 5 and 6            *)
(*   vals                  the values of functions 8, 15, 16, 23, 43         *)
(*   waddr am om           further numbers of functions 23 and 22            *)
(*   fn fa fq tup          the sub-requests of function 20; all are tuples   *)
(*   fmt                   [le, items]: the caller's data format: the sizes  *)
(*                         of its items, little or big endian; items = <<>>  *)
(*                         when there is none                                *)
(*   fvals                 the values of function 16 with a format, as the   *)
(*                         big endian bytes of each item                     *)
(*   pdu                   the request of function 0 (raw)                   *)
(*   raw                   the caller wants the bytes                        *)
(*   exp                   the expected length given by the caller or -1     *)
(* A result is a sequence of items, each the big endian bytes of one value;  *)
(* for function 20 a sequence of such sequences.                             *)
EXTENDS ModbusData

Callable == {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 20, 22, 23, 43}
IsWord(v) == v >= 0 /\ v <= 65535
IsReg(v) == v >= -32768 /\ v <= 65535
IsByte(v) == v >= 0 /\ v <= 255
AllOf(s, P(_)) == \A i \in DOMAIN s : P(s[i])

RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
HasFmt(c) == c.fmt.items # <<>>

-----------------------------------------------------------------------------
\* can the call be expressed as a request?
Expressible(c) ==
    /\ c.fc \in Callable
    /\ IsByte(c.slave)
    /\ CASE c.fc \in 1..4 -> IsWord(c.addr) /\ IsWord(c.qty)
         [] c.fc = 5 -> IsWord(c.addr)
         [] c.fc = 6 -> IsWord(c.addr) /\ IsReg(c.val)
         [] c.fc = 15 -> IsWord(c.addr) /\ CeilDiv(Len(c.vals), 8) <= 255
         [] c.fc = 16 /\ HasFmt(c) -> IsWord(c.addr) /\ Len(c.fvals) = Len(c.fmt.items) /\ SumOf(c.fmt.items) <= 255
         [] c.fc = 16 -> IsWord(c.addr) /\ 2 * Len(c.vals) <= 255 /\ AllOf(c.vals, IsReg)
         [] c.fc = 20 -> /\ c.tup /\ Len(c.fn) > 0 /\ Len(c.fn) = Len(c.fa) /\ Len(c.fn) = Len(c.fq)
                         /\ 7 * Len(c.fn) <= 255
                         /\ AllOf(c.fn, IsWord) /\ AllOf(c.fa, IsWord) /\ AllOf(c.fq, IsWord)
         [] c.fc = 22 -> IsWord(c.addr) /\ IsWord(c.am) /\ IsWord(c.om)
         [] c.fc = 23 -> /\ IsWord(c.addr) /\ IsWord(c.qty) /\ IsWord(c.waddr)
                         /\ 2 * Len(c.vals) <= 255 /\ AllOf(c.vals, IsReg)
         [] c.fc = 8 -> IsWord(c.addr) /\ AllOf(c.vals, IsByte)
         [] c.fc = 43 -> Len(c.vals) = 2 /\ AllOf(c.vals, IsByte)
         [] OTHER -> TRUE

Regs(vals) == WordsToBytes([i \in 1..Len(vals) |-> Unsigned(vals[i])])
SubReq(c, i) == <<6>> \o W(c.fn[i]) \o W(c.fa[i]) \o W(c.fq[i])

\* the request
EncodePdu(c) ==
    CASE c.fc = 0 -> c.pdu
      [] c.fc \in 1..4 -> <<c.fc>> \o W(c.addr) \o W(c.qty)
      [] c.fc = 5 -> <<5>> \o W(c.addr) \o (IF c.val # 0 THEN <<255, 0>> ELSE <<0, 0>>)
      [] c.fc = 6 -> <<6>> \o W(c.addr) \o W(Unsigned(c.val))
      [] c.fc = 7 -> <<7>>
      [] c.fc = 8 -> <<8>> \o W(c.addr) \o c.vals
      [] c.fc = 15 -> <<15>> \o W(c.addr) \o W(Len(c.vals)) \o <<CeilDiv(Len(c.vals), 8)>> \o PackBits(c.vals)
      [] c.fc = 16 -> LET d == IF HasFmt(c) THEN Flat([i \in 1..Len(c.fvals) |->
                                                        IF c.fmt.le THEN Rev(c.fvals[i]) ELSE c.fvals[i]])
                               ELSE Regs(c.vals)
                      IN <<16>> \o W(c.addr) \o W(Len(d) \div 2) \o <<Len(d)>> \o d
      [] c.fc = 20 -> <<20, 7 * Len(c.fn)>> \o Flat([i \in 1..Len(c.fn) |-> SubReq(c, i)])
      [] c.fc = 22 -> <<22>> \o W(c.addr) \o W(c.am) \o W(c.om)
      [] c.fc = 23 -> <<23>> \o W(c.addr) \o W(c.qty) \o W(c.waddr) \o W(Len(c.vals)) \o <<2 * Len(c.vals)>> \o Regs(c.vals)
      [] c.fc = 43 -> <<43, 14>> \o c.vals
      [] OTHER -> <<>>

-----------------------------------------------------------------------------
\* the sequence of bytes d cut into items of the given sizes
RECURSIVE Cut(_, _, _)
Cut(d, sizes, le) ==
    IF sizes = <<>> THEN <<>>
    ELSE <<IF le THEN Rev(Take(d, sizes[1])) ELSE Take(d, sizes[1])>> \o Cut(Drop(d, sizes[1]), Tail(sizes), le)
Uniform(d, n) == [i \in 1..(Len(d) \div n) |-> SubSeq(d, n * (i - 1) + 1, n * i)]
Bad == [k |-> "bad"]
Res(v) == [k |-> "ok", v |-> v]
\* as items of the caller's format, else of n bytes each, if there are exactly len bytes
AsItems(c, d, n, len) ==
    IF HasFmt(c) THEN IF Len(d) = SumOf(c.fmt.items) THEN Res(Cut(d, c.fmt.items, c.fmt.le)) ELSE Bad
    ELSE IF Len(d) = len THEN Res(Uniform(d, n)) ELSE Bad

\* the sub-responses of function 20: length, reference type, data
RECURSIVE SubResp(_, _, _)
SubResp(d, fq, acc) ==
    IF fq = <<>> THEN IF d = <<>> THEN Res(acc) ELSE Bad
    ELSE IF Len(d) < 2 + 2 * fq[1] \/ d[1] # 2 * fq[1] + 1 THEN Bad
    ELSE SubResp(Drop(d, 2 + 2 * fq[1]), Tail(fq), Append(acc, Uniform(SubSeq(d, 3, 2 + 2 * fq[1]), 2)))

\* what the bytes after function code and byte count, resp. function code, mean
DecodeData(c, d) ==
    CASE c.raw -> Res(Uniform(d, 1))
      [] c.fc \in 1..2 -> IF Len(d) = CeilDiv(c.qty, 8)
                          THEN Res([i \in 1..c.qty |-> <<UnpackBits(d, c.qty)[i]>>]) ELSE Bad
      [] c.fc \in {3, 4, 23} -> AsItems(c, d, 2, 2 * c.qty)
      [] c.fc = 20 -> SubResp(d, c.fq, <<>>)
      [] c.fc \in {5, 6} -> AsItems(c, d, 2, 4)
      [] c.fc \in {15, 16} -> IF Len(d) = 4 THEN Res(Uniform(d, 2)) ELSE Bad
      [] c.fc = 22 -> AsItems(c, d, 2, 6)
      [] c.fc = 7 -> IF Len(d) = 1 THEN Res(<<d>>) ELSE Bad
      [] c.fc = 8 /\ HasFmt(c) -> AsItems(c, d, 1, -1)
      [] c.fc = 8 -> IF Len(d) = 2 + Len(c.vals) THEN Res(<<Take(d, 2)>> \o Uniform(Drop(d, 2), 1)) ELSE Bad
      [] c.fc = 43 -> Res(Uniform(d, 1))
      [] c.fc = 0 -> AsItems(c, d, 1, -1)
      [] OTHER -> Bad

HasCount(c) == c.fc \in {1, 2, 3, 4, 20, 23}
ReqFc(c) == IF c.fc = 0 THEN c.pdu[1] ELSE c.fc

\* the meaning of a reply: a result, an exception of the slave or nothing valid
DecodePdu(c, p) ==
    IF Len(p) < 2 THEN Bad
    ELSE IF p[1] = ReqFc(c) + 128 /\ Len(p) = 2 THEN [k |-> "exc", code |-> p[2]]
    ELSE IF p[1] # ReqFc(c) THEN Bad
    ELSE IF HasCount(c) THEN IF p[2] = Len(p) - 2 THEN DecodeData(c, Drop(p, 2)) ELSE Bad
    ELSE DecodeData(c, Drop(p, 1))
=============================================================================
