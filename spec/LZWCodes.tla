------------------------------ MODULE LZWCodes ------------------------------
(***************************************************************************)
(* The LZW decoder fed with arbitrary codes, also such as no greedy coder  *)
(* writes: one action per item the implementation's expand loop reads.     *)
(*   Header(v)  a chunk header holding v                                   *)
(*   Code(c)    any code: literal, string, the string being defined,       *)
(*              clear, stop, or one that denotes nothing                   *)
(* Every item prints the vector (options, stream so far, result), so that  *)
(* under VIEW every transition of the decoder's state graph is replayed on *)
(* the real code.                                                          *)
(***************************************************************************)
EXTENDS LZW, Json, IOUtils

CONSTANTS MaxItems, Emit

Configs == ndJsonDeserialize(IOEnv.CONFIGS)

VARIABLES o, dd, dp,     \* table, previous code (-1: none)
          left,          \* bits of the chunk not yet used up (no headers: -1)
          phase,         \* "hdr", "code", "end" (stop code seen), "err"
          bits, outp     \* history: stream and output
vars == << o, dd, dp, left, phase, bits, outp >>
View == << o, dd, dp, left, phase, Len(bits) % 8 >>

Start(oo) == IF oo.hb > 0 THEN "hdr" ELSE "code"

Init == /\ \E i \in 1..Len(Configs) : o = Configs[i]
        /\ dd = DictInit(o) /\ dp = NoCode /\ left = NoCode
        /\ phase = Start(o) /\ bits = << >> /\ outp = << >>

\* Padding of the last byte must not make another item
PadFits(bs, ph) == LET pad == (8 - (Len(bs) % 8)) % 8 IN
                   CASE ph = "hdr"  -> pad < o.hb
                     [] ph = "code" -> pad < o.w
                     [] OTHER -> TRUE
Vec(bs, ph, out, tail) ==
    PrintT("VEC " \o ToJson([o |-> o, in |-> PackBits(bs, o.ord) \o tail,
                             ok |-> IF ph = "err" THEN 0 ELSE 1, out |-> out]))
EmitVec(bs, ph, out) ==
    IF ~Emit \/ ~PadFits(bs, ph) THEN TRUE
    ELSE /\ Vec(bs, ph, out, << >>)
         \* after the stop code, whatever follows is ignored; after a bad code too
         /\ IF ph \in {"end", "err"} THEN Vec(bs, ph, out, << 255, 0, 1 >>) ELSE TRUE

Header == /\ phase = "hdr" /\ Len(bits) < MaxItems * o.w
          /\ \E v \in 0..3 :
               /\ v * o.hd <= 4 * o.w
               /\ bits' = bits \o FieldBits(v, o.hb, o.ord)
               /\ left' = v * o.hd
               /\ phase' = IF v = 0 THEN "hdr" ELSE "code"
               /\ EmitVec(bits', phase', outp)
          /\ dd' = DictInit(o) /\ dp' = NoCode
          /\ UNCHANGED << o, outp >>

NewChunk == dd' = DictInit(o) /\ dp' = NoCode /\ left' = NoCode /\ phase' = Start(o)

Code == /\ phase = "code" /\ Len(bits) < MaxItems * o.w
        /\ \E c \in 0..MaxCode(o) :
             /\ bits' = bits \o FieldBits(c, o.w, o.ord)
             /\ IF c = o.stop
                THEN phase' = "end" /\ UNCHANGED << dd, dp, left, outp >>
                ELSE IF c = o.clear
                THEN NewChunk /\ outp' = outp
                ELSE LET r == Denotes(o, dd, dp, c) IN
                     IF ~r.ok THEN phase' = "err" /\ UNCHANGED << dd, dp, left, outp >>
                     ELSE /\ outp' = outp \o r.str
                          /\ IF left # NoCode /\ left <= o.w
                             THEN NewChunk
                             ELSE /\ dd' = Learn(o, dd, dp, r.str) /\ dp' = c
                                  /\ left' = IF left = NoCode THEN NoCode ELSE left - o.w
                                  /\ phase' = "code"
             /\ EmitVec(bits', phase', outp')
        /\ UNCHANGED o

Next == Header \/ Code
Spec == Init /\ [][Next]_vars

(* Every string in the table is an earlier string and one symbol. *)
TableOK == \A c \in 0..MaxCode(o) : dd.par[c] # NoCode =>
               /\ c > o.maxsym /\ ~IsSpecial(o, c) /\ c < dd.next
               /\ Defined(o, dd, dd.par[c]) /\ dd.par[c] < c
PrevOK == dp # NoCode => Defined(o, dd, dp) \/ dp = dd.next
=============================================================================
