------------------------------ MODULE TD0Near ------------------------------
(***************************************************************************)
(* Files that are almost valid TD0 files: headers carrying what a mistaken *)
(* reader could take for the right checksum, and files cut inside a header *)
(* such that the header would be valid with zeros in place of what is      *)
(* missing.  Each is printed, for the library to be tried on.              *)
(***************************************************************************)
EXTENDS TD0, FiniteSets, Json

CONSTANTS Bytes,       \* a choice of bytes for the middle of the header
          Tails        \* numbers of bytes after the header

VARIABLES kind, file
vars == << kind, file >>

Le(c) == << c % 256, c \div 256 >>
Be(c) == << c \div 256, c % 256 >>
Zeros(n) == [i \in 1..n |-> 0]
Sigs == {Normal, Advanced}
\* signatures of which at most the case of a letter, or the order, is wrong
NearSigs == {<< a, b >> : a \in {84, 116, 68, 100}, b \in {68, 100, 84, 116}} \cup {<< 0, 0 >>, << 84, 0 >>, << 116, 0 >>, << 0, 100 >>, << 0, 68 >>}
RECURSIVE SumAll(_)
SumAll(q) == IF q = << >> THEN 0 ELSE Head(q) + SumAll(Tail(q))
CaseOf(q) == IF SubSeq(q, 1, 2) = Normal THEN Advanced \o SubSeq(q, 3, Len(q)) ELSE Normal \o SubSeq(q, 3, Len(q))
RECURSIVE Rev(_, _)
Rev(n, k) == IF k = 0 THEN 0 ELSE (n % 2) * 2^(k-1) + Rev(n \div 2, k - 1)

\* checksums one may arrive at by mistake, the two bytes as they would be stored
Mistakes(h) ==
    LET c == Crc16(h) IN
    [right |-> Le(c), swapped |-> Be(c), zero |-> << 0, 0 >>, ones |-> << 255, 255 >>, complement |-> Le(65535 - c),
     init |-> Le(CrcFrom(65535, h)), other |-> Le(Crc16(CaseOf(h))), nosig |-> Le(Crc16(SubSeq(h, 3, 10))),
     less |-> Le(Crc16(SubSeq(h, 1, 9))), more |-> Le(Crc16(h \o << 0, 0 >>)), sum |-> Le(SumAll(h) % 65536),
     mirrored |-> Le(Rev(c, 16)), up |-> Le((c + 1) % 65536), down |-> Le((c + 65535) % 65536),
     low |-> << c % 256, 255 - (c \div 256) >>, high |-> << 255 - (c % 256), c \div 256 >>, lowonly |-> << c % 256, 0 >>, highonly |-> << 0, c \div 256 >>]

Mids == {<< a, b, v, a, b, b, a, w >> : a \in Bytes, b \in Bytes, v \in {10, 21} , w \in Bytes}
Wrong == {<< k, s \o m >> : k \in DOMAIN Mistakes(Normal \o Zeros(8)), s \in Sigs, m \in Mids}

\* n bytes of a header whose checksum is zero, and all of whose missing bytes are zero
Cut(s, m, n) == IF n = 11 THEN s \o m
                ELSE LET p == s \o SubSeq(m, 1, n - 4) IN p \o Be(Crc16(p))

Init == \/ \E w \in Wrong, t \in Tails : kind = w[1] /\ file = w[2] \o Mistakes(w[2])[w[1]] \o Zeros(t)
        \/ \E s \in NearSigs, m \in Mids : kind = "signature" /\ file = s \o m \o Le(Crc16(s \o m))
        \/ \E s \in Sigs, m \in Mids, n \in 4..10 : kind = "cut" /\ file = Cut(s, m, n)
        \/ \E s \in Sigs, m \in Mids, b \in 0..255 :
              LET h == s \o SubSeq(m, 1, 7) \o << b >> IN
              kind = "cut" /\ Crc16(h) < 256 /\ file = h \o << Crc16(h) >>
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Pad(f) == f \o Zeros(12 - Len(f))
Op(f) == IF SubSeq(f, 1, 2) = Normal THEN "C" ELSE "X"
\* the cut files are what they are meant to be, and the right checksum is the only one that passes
CutOK   == kind = "cut" => HdrClass(Op(file), file) = "short" /\ HdrClass(Op(file), Pad(file)) = "valid"
RightOK == kind = "right" => HdrClass(Op(file), file) = "valid"
WrongOK == kind \notin {"cut", "right", "signature"} =>
             (HdrClass(Op(file), file) = "crc" \/ SubSeq(file, 11, 12) = Le(Crc16(SubSeq(file, 1, 10))))
Show    == PrintT("VEC " \o ToJson([kind |-> kind, file |-> file]))
=============================================================================
