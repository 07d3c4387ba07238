-------------------------------- MODULE TD0 --------------------------------
EXTENDS Naturals, Integers, Sequences, TLC, Bitwise

(***************************************************************************)
(* TD0 headers                                                             *)
(***************************************************************************)
Bit(n, k) == (n \div 2^k) % 2
Xor16(a, b) == a ^^ b
Poly == 41111                                   \* 0xA097
Shift1(c) == IF c >= 32768 THEN Xor16((c * 2) % 65536, Poly) ELSE c * 2
\* one bit after the other (as constants of their own, which TLC evaluates only once)
CrcTab1 == [b \in 0..255 |-> Shift1(b * 256)]
CrcTab2 == [b \in 0..255 |-> Shift1(CrcTab1[b])]
CrcTab3 == [b \in 0..255 |-> Shift1(CrcTab2[b])]
CrcTab4 == [b \in 0..255 |-> Shift1(CrcTab3[b])]
CrcTab5 == [b \in 0..255 |-> Shift1(CrcTab4[b])]
CrcTab6 == [b \in 0..255 |-> Shift1(CrcTab5[b])]
CrcTab7 == [b \in 0..255 |-> Shift1(CrcTab6[b])]
CrcTab == [b \in 0..255 |-> Shift1(CrcTab7[b])]
RECURSIVE CrcAcc(_, _, _)
CrcAcc(s, i, c) == IF i > Len(s) THEN c
                   ELSE CrcAcc(s, i + 1, TLCEval(Xor16((c % 256) * 256, CrcTab[Xor16(c \div 256, s[i])])))
CrcFrom(c, s) == CrcAcc(s, 1, c)
Crc16(s) == CrcFrom(0, s)

Normal   == << 84, 68 >>                        \* "TD"
Advanced == << 116, 100 >>                      \* "td"
Wanted(op) == IF op = "C" THEN Normal ELSE Advanced
Other(op)  == IF op = "C" THEN Advanced ELSE Normal
CrcGood(h) == Crc16(SubSeq(h, 1, 10)) = h[11] + 256 * h[12]
HdrClass(op, h) == IF Len(h) < 12 THEN "short"
                   ELSE IF SubSeq(h, 1, 2) # Wanted(op)
                   THEN (IF CrcGood(h) THEN "sig" ELSE "sigcrc")
                   ELSE IF CrcGood(h) THEN "valid" ELSE "crc"
Converted(op, h) == LET b == Other(op) \o SubSeq(h, 3, 10)
                        c == Crc16(b)
                    IN  b \o << c % 256, c \div 256 >>
\* the codec of the part after the header
BodyCodec(h) == IF h[5] < 20 THEN "lzw:td" ELSE "lzss:td"
=============================================================================
