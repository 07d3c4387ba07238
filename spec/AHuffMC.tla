------------------------------ MODULE AHuffMC ------------------------------
(***************************************************************************)
(* All reachable adaptive Huffman tables for a few symbols and a small     *)
(* halving threshold, under every sequence of symbols of any length.       *)
(* (The real tables have some 300 symbols and threshold 32768; these       *)
(* operators do not depend on either.)                                     *)
(***************************************************************************)
EXTENDS AHuff, BitStream, Integers

CONSTANTS NSyms, Thresh
VARIABLES h, hd, last
vars == << h, hd, last >>
Init == h = HuffInit(NSyms) /\ hd = HuffInit(NSyms) /\ last = -1

\* the decoder's walk along a code
Walk(t, code) == LET T == 2 * NSyms - 1
                     RECURSIVE W(_, _)
                     W(c, i) == IF c >= T THEN << c - T, i - 1 >>
                                ELSE IF i > Len(code) THEN << -1, i - 1 >>
                                ELSE W(t.s[c + code[i]], i + 1)
                 IN  W(t.s[T - 1], 1)

\* the coder puts out sym's code and updates; the decoder reads it and updates likewise
Symbol(sym) == LET code == HuffCode(h, NSyms, sym)
                   got  == Walk(hd, code)
               IN  /\ last' = (IF got = << sym, Len(code) >> THEN sym ELSE -2)
                   /\ h'  = HuffUpdate(h, NSyms, Thresh, sym)
                   /\ hd' = IF got[1] >= 0 THEN HuffUpdate(hd, NSyms, Thresh, got[1]) ELSE hd
Next == \E sym \in 0..(NSyms - 1) : Symbol(sym)
Spec == Init /\ [][Next]_vars
View == << h, hd, last = -2 >>

WellFormed == HuffWF(h, NSyms)
Decodable == last # -2
SameTables == h = hd
Bounded == h.f[Root(NSyms)] <= Thresh
\* a new symbol always counts
Counted == last >= 0 => h.f[h.p[2 * NSyms - 1 + last]] >= 2 \/ h.f[Root(NSyms)] <= Thresh \div 2 + NSyms + 1
CodesShort == \A c \in 0..(NSyms - 1) : Len(HuffCode(h, NSyms, c)) \in 1..(NSyms - 1)
=============================================================================
