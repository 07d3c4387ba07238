------------------------------- MODULE LZHTok -------------------------------
(***************************************************************************)
(* The LZSS/Huffman decoder fed with tokens of its own choosing, also such *)
(* as no coder writes (copies out of the initial window, longest copies at *)
(* every distance, copies that overlap themselves).  After every token,    *)
(* vectors (options, stream, output) are printed for the real decoders:    *)
(* without a header, and with headers announcing less, the same, and more  *)
(* than there is.                                                          *)
(***************************************************************************)
EXTENDS LZH, Json, IOUtils

Configs == ndJsonDeserialize(IOEnv.CONFIGS)      \* with max: how many tokens

\* the window itself is kept only where it is small
Win(i) == IF Configs[i].N <= 64 THEN WinInit(Configs[i]) ELSE << >>

VARIABLES c, o, h0, h, win, r, bits, out, n
vars == << c, o, h0, h, win, r, bits, out, n >>
View == << c, n, bits >>

Init == /\ \E i \in 1..Len(Configs) : c = i
        /\ o = Configs[c] /\ h0 = HuffInit(NSym(Configs[c])) /\ h = h0 /\ win = Win(c) /\ r = o.N - o.F
        /\ bits = << >> /\ out = << >> /\ n = 0

Literals == {0, 32, 65, 255}
Lengths == {o.T + 1, o.F} \cap (o.T + 1)..o.F
Offsets == {x \in {0, 1, o.F - 1, o.F, 63, 64, 65, 255, 256, 767, 768, 1535, 1536, 3071, 3072, 4031,
                   o.N - o.F - 1, o.N - o.F, o.N - 2, o.N - 1} : x >= 0 /\ x < o.N}

Vec(hdr, bytes) ==
    LET oo == [o EXCEPT !.hdr = hdr]
    IN  PrintT("VEC " \o ToJson([o |-> oo, in |-> bytes, out |-> DecodeFrom(oo, h0, bytes)]))

Token2(sym, off) ==
    /\ n < o.max /\ n' = n + 1
    /\ out' = Extend(o, out, sym, off)
    /\ IF o.N > 64 THEN UNCHANGED << win, r >>
       ELSE LET w == TLCEval(ApplyTok(o, win, r, sym, off % o.N)) IN win' = w.win /\ r' = w.r
    /\ bits' = bits \o TokenBits(h, o, [sym |-> sym, off |-> IF sym < 256 THEN -1 ELSE off])
    /\ h' = HuffUpdate(h, NSym(o), MaxFreq, sym)
    /\ LET b == PackBits(bits', "msb") IN
            /\ Vec(0, b)
            /\ \A k \in {1, Len(out'), Len(out') + 1, Len(out') - 1} : k < 0 \/ Vec(1, LE32(k) \o b)
    /\ UNCHANGED << c, o, h0 >>

Next == \/ \E s \in Literals : Token2(s, 0)
        \/ \E k \in Lengths, off \in Offsets : Token2(255 - o.T + k, off)
Spec == Init /\ [][Next]_vars

\* the decoder of whole streams agrees with the token by token one
Agree == LET b == PackBits(bits, "msb") IN
         LET d == DecodeFrom([o EXCEPT !.hdr = 1], h0, LE32(Len(out)) \o b) IN d = out
WF == HuffWF(h, NSym(o))
\* the window holds the most recent bytes
WindowOK == o.N > 64 \/ \A off \in 0..(o.N - 1) : win[(r + o.N - 1 - off) % o.N] = Back(o, out, Len(out), off)
SupportedOK == Supported(o)
=============================================================================
