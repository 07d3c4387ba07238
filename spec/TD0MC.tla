------------------------------- MODULE TD0MC -------------------------------
(***************************************************************************)
(* The checksum of TD0 headers, fed byte by byte.  The model compares the  *)
(* table-driven definition of module TD0 with its meaning, the remainder   *)
(* of the message (times x^16) modulo x^16 + 0xA097, and prints vectors    *)
(* for the function crc16 of the library.                                  *)
(***************************************************************************)
EXTENDS TD0, FiniteSets, Json

CONSTANTS Bytes,       \* a choice of bytes
          Seeds, MaxLen

VARIABLES seed, s, c
vars == << seed, s, c >>

Init == seed \in Seeds /\ s = << >> /\ c = seed
Next == /\ Len(s) < MaxLen
        /\ \E b \in Bytes :
             /\ s' = Append(s, b) /\ c' = CrcFrom(c, << b >>) /\ UNCHANGED seed
             /\ PrintT("VEC " \o ToJson([seed |-> seed, in |-> s', crc |-> c']))
Spec == Init /\ [][Next]_vars

\* bits of a number, the highest first
BitsOf(n, k) == [i \in 1..k |-> Bit(n, k - i)]
RECURSIVE Flat(_)
Flat(q) == IF q = << >> THEN << >> ELSE BitsOf(Head(q), 8) \o Flat(Tail(q))
\* long division: the remainder of the bits, as a number below 2^16
RECURSIVE Divide(_, _, _)
Divide(bs, i, r) == IF i > Len(bs) THEN r
                    ELSE LET t == TLCEval(2 * r + bs[i]) IN
                         Divide(bs, i + 1, IF t >= 65536 THEN Xor16(t - 65536, Poly) ELSE t)
Zeros16 == [i \in 1..16 |-> 0]
\* (a seed counts as if it had been added to the first two bytes)
Seeded(q, sd) == [i \in 1..Len(q) |-> IF i = 1 THEN q[1] ^^ (sd \div 256) ELSE IF i = 2 THEN q[2] ^^ (sd % 256) ELSE q[i]]

Meaning   == Len(s) >= 2 => c = Divide(Flat(Seeded(s, seed)) \o Zeros16, 1, 0)
Stepwise  == c = CrcFrom(seed, s)
\* any one byte changed changes the checksum
ASSUME Cardinality({CrcTab[b] : b \in 0..255}) = 256
Detects   == \A i \in 1..Len(s), b \in Bytes : b # s[i] => CrcFrom(seed, [s EXCEPT ![i] = b]) # c
\* with the checksum appended, high byte first, the remainder is zero
SelfCheck == CrcFrom(c, << c \div 256, c % 256 >>) = 0
\* conversion there and back restores a header, and keeps it valid
HeaderOK  == Len(s) = 8 =>
             LET h == Normal \o s IN
             LET full == h \o << Crc16(h) % 256, Crc16(h) \div 256 >> IN
             /\ HdrClass("C", full) = "valid" /\ HdrClass("X", Converted("C", full)) = "valid"
             /\ Converted("X", Converted("C", full)) = full
             /\ HdrClass("X", full) = "sig" /\ HdrClass("C", Converted("C", full)) = "sig"
             /\ \A k \in 0..11 : HdrClass("C", SubSeq(full, 1, k)) = "short"
=============================================================================
