----------------------------- MODULE BitStream -----------------------------
(***************************************************************************)
(* Bit-level view of a byte string, for both packing orders.  Bit          *)
(* positions are 0-based and count from the start of the byte string.      *)
(* ord = "msb": the first bit of a byte is its most significant one, and   *)
(* the first bit of a field is the field's most significant one.           *)
(* ord = "lsb": least significant first, for both.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

LOCAL INSTANCE TLC
P2 == TLCEval([i \in 0..30 |-> 2^i])

BitAt(bytes, pos, ord) ==
    LET b == bytes[(pos \div 8) + 1]
        k == pos % 8
    IN  (b \div P2[IF ord = "msb" THEN 7 - k ELSE k]) % 2

\* number of bits in the byte string
NBits(bytes) == 8 * Len(bytes)

ByteOr0(bytes, i) == IF i <= Len(bytes) THEN bytes[i] ELSE 0

\* The n-bit field (n <= 16) that starts at bit `pos`; bits beyond the end read 0.
Field(bytes, pos, n, ord) ==
    LET i  == (pos \div 8) + 1
        k  == pos % 8
        b0 == ByteOr0(bytes, i)
        b1 == ByteOr0(bytes, i + 1)
        b2 == ByteOr0(bytes, i + 2)
    IN  IF ord = "msb"
        THEN ((b0 * 65536 + b1 * 256 + b2) \div P2[24 - k - n]) % P2[n]
        ELSE ((b0 + b1 * 256 + b2 * 65536) \div P2[k]) % P2[n]

\* the n bits of v, in the order in which they are written
FieldBits(v, n, ord) ==
    [i \in 1..n |-> IF ord = "msb" THEN (v \div P2[n - i]) % 2
                                   ELSE (v \div P2[i - 1]) % 2]

\* bytes of a bit sequence, zero padded to a whole byte
PackBits(bits, ord) ==
    LET n     == (Len(bits) + 7) \div 8
        B(i)  == IF i <= Len(bits) THEN bits[i] ELSE 0
        W(k)  == IF ord = "msb" THEN P2[8 - k] ELSE P2[k - 1]
        Val(j) == B(8*j+1)*W(1) + B(8*j+2)*W(2) + B(8*j+3)*W(3) + B(8*j+4)*W(4)
                + B(8*j+5)*W(5) + B(8*j+6)*W(6) + B(8*j+7)*W(7) + B(8*j+8)*W(8)
    IN  [j \in 1..n |-> Val(j - 1)]

\* bytes needed for a number of bits
BytesFor(nbits) == (nbits + 7) \div 8
=============================================================================
