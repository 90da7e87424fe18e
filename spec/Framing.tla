------------------------------ MODULE Framing ------------------------------
(* Why a corrupted RTU frame is noticed.  A change of a frame is a set of    *)
(* bits; what it does to the checksum is the exclusive or of what its bits   *)
(* do, each of them shifted through the rest of the frame.  syn is the       *)
(* effect of the bit so many places before the end of a frame.                     *)
EXTENDS ModbusData
CONSTANTS Bits      \* of the longest frame
VARIABLES place, syn, seen
vars == <<place, syn, seen>>

\* parity which every multiple of x+1 leaves even: an odd number of bits never cancels out
RECURSIVE Ones(_)
Ones(v) == IF v = 0 THEN 0 ELSE (v % 2) + Ones(v \div 2)
\* the functional of the residues modulo x+1: the polynomial has an even number of terms (17 bits with the leading one)
Odd(v) == Ones(v) % 2 = 1

Init == place = 0 /\ syn = 32768 /\ seen = {}
Step == place < Bits - 1 /\ place' = place + 1 /\ syn' = Shift(syn, 1) /\ seen' = seen \cup {syn}
Next == Step
Spec == Init /\ [][Next]_vars

\* one bit changes the checksum, two bits never cancel each other out, nor do three
One == syn # 0
Two == syn \notin seen
Three == Odd(syn)
\* a burst: nothing of 16 bits is lost by shifting
ASSUME \A v \in 1..65535 : Shift(v, 1) # 0
\* the table used for the checksum is the polynomial division
ASSUME Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = 19255      \* "123456789" -> 0x4B37
=============================================================================
