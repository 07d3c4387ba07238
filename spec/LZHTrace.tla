------------------------------ MODULE LZHTrace ------------------------------
(***************************************************************************)
(* Trace validation for the LZSS/Huffman codecs.  The trace file holds     *)
(* recorded calls of the implementation, one JSON object per line:         *)
(*   enc: [id, k |-> "enc", N,F,T,pre,hdr, in, out]                        *)
(*   dec: [id, k |-> "dec", N,F,T,pre,hdr,zeros, in, out]                  *)
(* For each, the specification's coder/decoder is stepped, one action per  *)
(* token or byte, and every step must agree with the recorded output; the  *)
(* unlogged state (index trees, Huffman table) is the specification's own. *)
(* A call no behaviour explains ends in action Reject, which reports it.   *)
(***************************************************************************)
EXTENDS LZH, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ci, pc, e, h, pos, todo, cnt, bad, step
vars == << ci, pc, e, h, pos, todo, cnt, bad, step >>

C == Cases[ci]
O == [N |-> C.N, F |-> C.F, T |-> C.T, pre |-> C.pre]
HasHdr == C.hdr = 1
Zeros  == C.zeros = 1
NS == NSym(O)

View == << step >>
Tick == step' = step + 1

Init == /\ ci = 1 /\ pc = "load" /\ bad = << >> /\ step = 0
        /\ e = 0 /\ h = 0 /\ pos = 0 /\ todo = 0 /\ cnt = 0

Done(b) == /\ ci' = ci + 1 /\ pc' = "load" /\ bad' = b
           /\ e' = 0 /\ h' = 0 /\ pos' = 0 /\ todo' = 0 /\ cnt' = 0
Accept == Done(bad)
Reject(why) == /\ PrintT(<< "REJECT", C.id, why, "bitpos", pos, "outcount", cnt >>)
               /\ Done(Append(bad, C.id))

HdrBytes == IF HasHdr THEN LE32(Len(C.in)) ELSE << >>

(* ---- coder ---- *)
LoadEnc ==
    /\ pc = "load" /\ ci <= Len(Cases) /\ C.k = "enc" /\ Tick
    /\ IF C.res # "ok" THEN Reject("refused")
       ELSE IF Len(C.out) < Len(HdrBytes) \/ SubSeq(C.out, 1, Len(HdrBytes)) # HdrBytes
       THEN Reject("header")
       ELSE IF Len(C.in) = 0
       THEN IF Len(C.out) = Len(HdrBytes) THEN Accept ELSE Reject("empty")
       ELSE /\ e' = EncInit(O, C.in) /\ h' = HuffInit(NS)
            /\ pos' = 8 * Len(HdrBytes) /\ pc' = "token" /\ todo' = 0
            /\ UNCHANGED << ci, cnt, bad >>

BitsAgree(code, q) == /\ q + Len(code) <= NBits(C.out)
                      /\ \A i \in 1..Len(code) : BitAt(C.out, q + i - 1, "msb") = code[i]

EncodeToken ==
    /\ pc = "token" /\ C.k = "enc" /\ Tick
    /\ LET tk   == Token(e, O)
           code == HuffCode(h, NS, tk.sym)
           q    == pos + Len(code)
       IN  IF ~BitsAgree(code, pos) THEN Reject(<< "symbol", tk >>)
           ELSE IF tk.off >= 0 /\ ~(/\ q + PosBits(tk.off) <= NBits(C.out)
                                    /\ Field(C.out, q, PosBits(tk.off), "msb") = PosVal(tk.off))
           THEN Reject(<< "offset", tk >>)
           ELSE /\ h' = HuffUpdate(h, NS, MaxFreq, tk.sym)
                /\ pos' = IF tk.off >= 0 THEN q + PosBits(tk.off) ELSE q
                /\ todo' = tk.n /\ pc' = "slide"
                /\ UNCHANGED << ci, e, cnt, bad >>

Slide ==
    /\ pc = "slide" /\ todo > 0 /\ Tick
    /\ e' = IF e.ip < Len(C.in) THEN SlideIn(e, O, C.in[e.ip + 1]) ELSE SlideOut(e, O)
    /\ todo' = todo - 1
    /\ UNCHANGED << ci, pc, h, pos, cnt, bad >>

NextToken ==
    /\ pc = "slide" /\ todo = 0 /\ e.len > 0 /\ Tick
    /\ pc' = "token" /\ UNCHANGED << ci, e, h, pos, todo, cnt, bad >>

EncodeEnd ==
    /\ pc = "slide" /\ todo = 0 /\ e.len = 0 /\ Tick
    /\ IF Len(C.out) = BytesFor(pos) /\ \A q \in pos..(NBits(C.out) - 1) : BitAt(C.out, q, "msb") = 0
       THEN Accept ELSE Reject("end of stream")

(* ---- decoder ---- *)
\* the length in the header; more than 3 significant bytes means "no limit within the trace"
HdrLen == IF C.in[4] > 0 THEN 2000000000 ELSE C.in[1] + 256 * C.in[2] + 65536 * C.in[3]
Limit  == IF HasHdr THEN HdrLen ELSE 2000000000

LoadDec ==
    /\ pc = "load" /\ ci <= Len(Cases) /\ C.k = "dec" /\ Tick
    /\ IF HasHdr /\ Len(C.in) < 4 THEN (IF C.res = "err" THEN Accept ELSE Reject("no header"))
       ELSE IF C.res # "ok" THEN Reject("refused")
       ELSE /\ h' = HuffInit(NS)
            /\ pos' = (IF HasHdr THEN 32 ELSE 0) /\ cnt' = 0 /\ pc' = "dtoken"
            /\ UNCHANGED << ci, e, todo, bad >>

DecodeEnd == IF cnt = Len(C.out) THEN Accept ELSE Reject("surplus output")

DecodeToken ==
    /\ pc = "dtoken" /\ Tick
    /\ IF cnt >= Limit THEN DecodeEnd
       ELSE LET sy == ReadSym(h, NS, C.in, pos, Zeros) IN
            IF sy.sym < 0 THEN DecodeEnd
            ELSE LET ps == IF sy.sym < 256 THEN [off |-> 0, pos |-> sy.pos]
                           ELSE ReadPos(C.in, sy.pos, Zeros)
                 IN  IF ps.off < 0 THEN DecodeEnd
                     ELSE IF Holds(O, C.out, cnt, sy.sym, ps.off)
                     THEN /\ cnt' = cnt + CopyLen(O, sy.sym)
                          /\ pos' = ps.pos /\ h' = HuffUpdate(h, NS, MaxFreq, sy.sym)
                          /\ UNCHANGED << ci, pc, e, todo, bad >>
                     ELSE Reject(<< "output", sy.sym, ps.off >>)

Finish == /\ pc = "load" /\ ci = Len(Cases) + 1 /\ pc' = "done" /\ Tick
          /\ PrintT(<< "DONE", Len(Cases), Len(bad) >>)
          /\ UNCHANGED << ci, e, h, pos, todo, cnt, bad >>

Next == LoadEnc \/ EncodeToken \/ Slide \/ NextToken \/ EncodeEnd
        \/ LoadDec \/ DecodeToken \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
