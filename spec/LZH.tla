-------------------------------- MODULE LZH --------------------------------
(***************************************************************************)
(* The LZSS/Huffman codec: tokens, their bit encoding, and the coder's and *)
(* the decoder's step operators.                                           *)
(*   o = [N, F, T, pre, hdr]   window, lookahead, threshold, precursor,    *)
(*                             with/without 32-bit length header           *)
(* A literal is the symbol of its byte; a match of n bytes is the symbol   *)
(* 255 - T + n followed by its offset (distance - 1) in the position code. *)
(***************************************************************************)
EXTENDS BitStream, AHuff, LZSSTree, Integers

NSym(o)  == 256 + o.F - o.T
MaxFreq  == 32768

(* Static prefix code of the upper six bits of an offset: canonical, with   *)
(* 1, 3, 8, 12, 24, 16 codes of 3, 4, 5, 6, 7, 8 bits.                      *)
PLen(i) == IF i = 0 THEN 3 ELSE IF i < 4 THEN 4 ELSE IF i < 12 THEN 5
           ELSE IF i < 24 THEN 6 ELSE IF i < 48 THEN 7 ELSE 8
\* (in closed form, not by recursion, which would make TLC evaluate the tables at every use)
PFirst(i) == IF i = 0 THEN 0 ELSE IF i < 4 THEN 32 + 16 * (i - 1) ELSE IF i < 12 THEN 80 + 8 * (i - 4)
             ELSE IF i < 24 THEN 144 + 4 * (i - 12) ELSE IF i < 48 THEN 192 + 2 * (i - 24) ELSE 240 + (i - 48)
PTab == TLCEval([i \in 1..64 |-> [len |-> PLen(i - 1), code |-> PFirst(i - 1)]])     \* left-aligned in 8 bits
\* canonical: the codes follow each other without a gap, and use up all of the code space
ASSUME PFirst(0) = 0 /\ PFirst(63) + P2[8 - PLen(63)] = 256
ASSUME \A i \in 0..62 : PFirst(i + 1) = PFirst(i) + P2[8 - PLen(i)] /\ PLen(i) <= PLen(i + 1)
\* which upper-six value does an 8-bit look-ahead start with
DTab == TLCEval([v \in 0..255 |-> IF v < 32 THEN 0 ELSE IF v < 80 THEN 1 + (v - 32) \div 16
                                   ELSE IF v < 144 THEN 4 + (v - 80) \div 8 ELSE IF v < 192 THEN 12 + (v - 144) \div 4
                                   ELSE IF v < 240 THEN 24 + (v - 192) \div 2 ELSE 48 + (v - 240)])
ASSUME \A v \in 0..255 : PFirst(DTab[v]) <= v /\ v < PFirst(DTab[v]) + P2[8 - PLen(DTab[v])]

\* offset as (value, number of bits): prefix code then six low bits; at most 14 bits
PosBits(off) == PTab[(off \div 64) + 1].len + 6
PosVal(off)  == LET e == PTab[(off \div 64) + 1]
                IN  (e.code \div P2[8 - e.len]) * 64 + (off % 64)

(***************************************************************************)
(* Coder.  e = [t, r, len, ip, ml, mo]: buffer and index, position of the  *)
(* string to be coded, bytes of it left in the lookahead, bytes taken from *)
(* the input, current match.                                               *)
(***************************************************************************)
Min(a, b) == IF a < b THEN a ELSE b

EncInit(o, in) ==
    LET r0  == o.N - o.F
        len == Min(o.F, Len(in))
        RECURSIVE Load(_, _)
        Load(t, i) == IF i > len THEN t ELSE Load(PutByte(t, o, r0 + i - 1, in[i]), i + 1)
        RECURSIVE Prime(_, _)
        Prime(t, i) == IF i > o.F THEN t ELSE Prime(InsertNode(t, o, r0 - i).t, i + 1)
        m == InsertNode(Prime(TLCEval(Load(TreeInit(o), 1)), 1), o, r0)
    IN  [t |-> m.t, r |-> r0, len |-> len, ip |-> len, ml |-> m.len, mo |-> m.off]

Clip(e) == IF e.ml > e.len THEN e.len ELSE e.ml
\* the token to be written now, and the number of bytes it covers
Token(e, o) == LET m == Clip(e) IN
               IF m <= o.T THEN [sym |-> e.t.buf[e.r], n |-> 1, off |-> -1]
                           ELSE [sym |-> 255 - o.T + m, n |-> m, off |-> e.mo]

\* one byte further, taking in c
SlideIn(e, o, c) ==
    LET s  == (e.r + o.F) % o.N
        t1 == PutByte(DeleteNode(e.t, o, s), o, s, c)
        r1 == (e.r + 1) % o.N
        m  == InsertNode(t1, o, r1)
    IN  [e EXCEPT !.t = m.t, !.r = r1, !.ip = @ + 1, !.ml = m.len, !.mo = m.off]
\* one byte further, the input being exhausted
SlideOut(e, o) ==
    LET s  == (e.r + o.F) % o.N
        t1 == DeleteNode(e.t, o, s)
        r1 == (e.r + 1) % o.N
        m  == InsertNode(t1, o, r1)
    IN  IF e.len > 1
        THEN [e EXCEPT !.t = m.t, !.r = r1, !.len = @ - 1, !.ml = m.len, !.mo = m.off]
        ELSE [e EXCEPT !.t = t1, !.r = r1, !.len = @ - 1]

(***************************************************************************)
(* Decoder.                                                                *)
(***************************************************************************)
WinInit(o) == TLCEval([i \in 0..(o.N - 1) |-> IF i < o.N - o.F THEN o.pre ELSE 0])

\* Read one symbol at bit pos.  zeros: bits after the end read as 0, otherwise they
\* are an end-of-input, reported as sym = -1.
ReadSym(h, n, bytes, pos, zeros) ==
    LET T == 2*n - 1
        RECURSIVE Down(_, _)
        Down(c, q) ==
            IF c >= T THEN [sym |-> c - T, pos |-> q]
            ELSE IF q < NBits(bytes) THEN Down(h.s[c + BitAt(bytes, q, "msb")], q + 1)
            ELSE IF zeros THEN Down(h.s[c], q + 1)
            ELSE [sym |-> -1, pos |-> q]
    IN  Down(h.s[T - 1], pos)

\* Read an offset at bit pos; off = -1 for end-of-input.
ReadPos(bytes, pos, zeros) ==
    LET v == DTab[Field(bytes, pos, 8, "msb")]
        n == PTab[v + 1].len + 6
    IN  IF ~zeros /\ pos + n > NBits(bytes) THEN [off |-> -1, pos |-> pos]
        ELSE [off |-> v * 64 + Field(bytes, pos + PTab[v + 1].len, 6, "msb"), pos |-> pos + n]

\* Copy n bytes at distance off+1 within the window ending at r: [win, r, out]
RECURSIVE CopyTok(_, _, _, _, _, _)
CopyTok(o, win, r, off, n, acc) ==
    IF n = 0 THEN [win |-> win, r |-> r, out |-> acc]
    ELSE LET b == win[(r + o.N + o.N - 1 - off) % o.N]
         IN  CopyTok(o, [win EXCEPT ![r] = b], (r + 1) % o.N, off, n - 1, Append(acc, b))

ApplyTok(o, win, r, sym, off) ==
    IF sym < 256 THEN [win |-> [win EXCEPT ![r] = sym], r |-> (r + 1) % o.N, out |-> << sym >>]
    ELSE CopyTok(o, win, r, off, sym + o.T - 255, << >>)

(***************************************************************************)
(* The same without a window: the byte off+1 places behind the k bytes     *)
(* put out so far is one of them, or lies in the initial window.  (An      *)
(* offset beyond the window is taken modulo its size.)                     *)
(***************************************************************************)
InitByte(o, i) == IF i < o.N - o.F THEN o.pre ELSE 0
Back(o, out, k, off) ==
    LET j == k - (off % o.N)
    IN  IF j >= 1 THEN out[j] ELSE InitByte(o, (o.N - o.F + j - 1 + o.N) % o.N)
CopyLen(o, sym) == IF sym < 256 THEN 1 ELSE sym + o.T - 255
\* what symbol sym (and offset off) adds to the output
RECURSIVE CopyBack(_, _, _, _)
CopyBack(o, out, off, n) ==
    IF n = 0 THEN out ELSE CopyBack(o, Append(out, Back(o, out, Len(out), off)), off, n - 1)
Extend(o, out, sym, off) ==
    IF sym < 256 THEN Append(out, sym) ELSE CopyBack(o, out, off, CopyLen(o, sym))
\* does out hold at k+1.. what the symbol denotes behind its first k bytes?
Holds(o, out, k, sym, off) ==
    LET n == CopyLen(o, sym) IN
    /\ k + n <= Len(out)
    /\ IF sym < 256 THEN out[k + 1] = sym
       ELSE \A i \in 1..n : out[k + i] = Back(o, out, k + i - 1, off)

LE32(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>

(***************************************************************************)
(* The whole coder and decoder as functions (for generated vectors).       *)
(* o.hdr = 1: with the 32-bit length header.                               *)
(***************************************************************************)
TokenBits(h, o, tk) ==
    HuffCode(h, NSym(o), tk.sym)
    \o (IF tk.off >= 0 THEN FieldBits(PosVal(tk.off), PosBits(tk.off), "msb") ELSE << >>)

RECURSIVE SlideN(_, _, _, _)
SlideN(e, o, in, n) ==
    IF n = 0 THEN e
    ELSE SlideN(TLCEval(IF e.ip < Len(in) THEN SlideIn(e, o, in[e.ip + 1]) ELSE SlideOut(e, o)), o, in, n - 1)

RECURSIVE EncodeAcc(_, _, _, _, _)
EncodeAcc(e, h, o, in, acc) ==
    IF e.len = 0 THEN acc
    ELSE LET tk == Token(e, o) IN
         EncodeAcc(SlideN(e, o, in, tk.n), HuffUpdate(h, NSym(o), MaxFreq, tk.sym), o, in, acc \o TokenBits(h, o, tk))

EncodeBits(o, in) == EncodeAcc(EncInit(o, in), HuffInit(NSym(o)), o, in, << >>)
Header(o, n) == IF o.hdr = 1 THEN LE32(n) ELSE << >>
Encode(o, in) == Header(o, Len(in)) \o PackBits(EncodeBits(o, in), "msb")

\* all tokens wholly contained in the bytes from bit pos on, until lim bytes are put out
RECURSIVE DecodeAcc(_, _, _, _, _, _)
DecodeAcc(o, h, bytes, pos, lim, acc) ==
    IF Len(acc) >= lim THEN acc
    ELSE LET sy == ReadSym(h, NSym(o), bytes, pos, FALSE) IN
         IF sy.sym < 0 THEN acc
         ELSE LET ps == IF sy.sym < 256 THEN [off |-> 0, pos |-> sy.pos] ELSE ReadPos(bytes, sy.pos, FALSE) IN
              IF ps.off < 0 THEN acc
              ELSE DecodeAcc(o, HuffUpdate(h, NSym(o), MaxFreq, sy.sym), bytes, ps.pos, lim,
                             TLCEval(Extend(o, acc, sy.sym, ps.off)))

NoLimit == 1000000000
\* bytes include the header, if any (lengths below 2^24); h0: initial table
DecodeFrom(o, h0, bytes) ==
    DecodeAcc(o, h0, bytes, IF o.hdr = 1 THEN 32 ELSE 0,
              IF o.hdr = 1 THEN bytes[1] + 256 * bytes[2] + 65536 * bytes[3] ELSE NoLimit, << >>)
Decode(o, bytes) == DecodeFrom(o, HuffInit(NSym(o)), bytes)

Supported(o) == /\ o.F >= 1 /\ o.T \in 0..o.F /\ 2 * o.F <= o.N /\ o.N <= 4096 /\ o.pre \in 0..255
=============================================================================
