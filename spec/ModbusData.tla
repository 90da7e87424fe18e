----------------------------- MODULE ModbusData -----------------------------
(* Bytes, words, bits and checksums as the Modbus standard packs them.       *)
(* A byte string is a sequence of 0..255.                                    *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

Byte == 0..255
Hi(w) == (w \div 256) % 256
Lo(w) == w % 256
W(w) == <<Hi(w), Lo(w)>>                       \* a word, most significant first
Word(p, i) == 256 * p[i] + p[i+1]              \* the word at position i of p
CeilDiv(a, b) == (a + b - 1) \div b
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* two's complement
Signed(w) == IF w >= 32768 THEN w - 65536 ELSE w
Unsigned(v) == v % 65536

\* the sequence of words w as bytes
WordsToBytes(ws) == [i \in 1..(2 * Len(ws)) |->
                        IF i % 2 = 1 THEN Hi(ws[(i + 1) \div 2]) ELSE Lo(ws[i \div 2])]
BytesToWords(bs) == [i \in 1..(Len(bs) \div 2) |-> 256 * bs[2*i-1] + bs[2*i]]

\* bits are packed least significant first, unused bits are zero
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
BitAt(bits, k) == IF k <= Len(bits) /\ bits[k] # 0 THEN 1 ELSE 0
PackBits(bits) == [i \in 1..CeilDiv(Len(bits), 8) |->
    LET o == 8 * (i - 1) IN
    BitAt(bits, o+1) + 2 * BitAt(bits, o+2) + 4 * BitAt(bits, o+3) + 8 * BitAt(bits, o+4)
    + 16 * BitAt(bits, o+5) + 32 * BitAt(bits, o+6) + 64 * BitAt(bits, o+7) + 128 * BitAt(bits, o+8)]
UnpackBits(bs, n) == [k \in 1..n |-> (bs[((k - 1) \div 8) + 1] \div Pow2[((k - 1) % 8) + 1]) % 2]

Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

-----------------------------------------------------------------------------
(* CRC-16/MODBUS computed bit by bit from its polynomial (0xA001 reflected,  *)
(* initial value 0xFFFF).  On the wire the low byte comes first.             *)
RECURSIVE Shift(_, _)
Shift(c, k) == IF k = 0 THEN c
               ELSE Shift(IF c % 2 = 1 THEN (c \div 2) ^^ 40961 ELSE c \div 2, k - 1)
CrcTable == [b \in Byte |-> Shift(b, 8)]       \* derived from the polynomial, evaluated once
RECURSIVE CrcFrom(_, _, _)
CrcFrom(bs, i, c) == IF i > Len(bs) THEN c
                     ELSE CrcFrom(bs, i + 1, (c \div 256) ^^ CrcTable[(c % 256) ^^ bs[i]])
Crc(bs) == CrcFrom(bs, 1, 65535)
CrcBytes(bs) == <<Lo(Crc(bs)), Hi(Crc(bs))>>

\* the lengths k <= m of the prefixes of bs which end with their checksum
RECURSIVE IntactFrom(_, _, _, _)
IntactFrom(bs, i, c, m) ==
    IF i + 2 > m THEN {}
    ELSE (IF i >= 1 /\ bs[i+1] = Lo(c) /\ bs[i+2] = Hi(c) THEN {i + 2} ELSE {})
         \cup IntactFrom(bs, i + 1, (c \div 256) ^^ CrcTable[(c % 256) ^^ bs[i+1]], m)
IntactLens(bs, m) == IntactFrom(bs, 0, 65535, Min(m, Len(bs)))

RtuFrame(addr, pdu) == LET d == <<addr>> \o pdu IN d \o CrcBytes(d)
RtuIntact(f) == Len(f) >= 3 /\ SubSeq(f, Len(f) - 1, Len(f)) = CrcBytes(SubSeq(f, 1, Len(f) - 2))

TcpFrame(tid, proto, unit, pdu) == W(tid) \o W(proto) \o W(Len(pdu) + 1) \o <<unit>> \o pdu
=============================================================================
