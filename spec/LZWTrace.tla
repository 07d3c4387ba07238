------------------------------ MODULE LZWTrace ------------------------------
(***************************************************************************)
(* Trace validation for LZW.  One JSON object per line of the trace file:  *)
(*   enc: [id, k |-> "enc", o, in, out]            recorded compress call  *)
(*   dec: [id, k |-> "dec", o, in, res, out]       recorded expand call    *)
(* The coder/decoder of module LZW is stepped code by code against the     *)
(* recorded bytes; a call no behaviour explains ends in Reject.            *)
(***************************************************************************)
EXTENDS LZW, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ci, pc, d, prev, ip, pos, n, hpos, left, cnt, bad, step
vars == << ci, pc, d, prev, ip, pos, n, hpos, left, cnt, bad, step >>
View == << step >>
Tick == step' = step + 1

C == Cases[ci]
O == C.o

Init == /\ ci = 1 /\ pc = "load" /\ bad = << >> /\ step = 0
        /\ d = 0 /\ prev = NoCode /\ ip = 0 /\ pos = 0 /\ n = 0 /\ hpos = 0 /\ left = 0 /\ cnt = 0

Done(b) == /\ ci' = ci + 1 /\ pc' = "load" /\ bad' = b
           /\ d' = 0 /\ prev' = NoCode /\ ip' = 0 /\ pos' = 0 /\ n' = 0 /\ hpos' = 0 /\ left' = 0 /\ cnt' = 0
Accept == Done(bad)
Reject(why) == /\ PrintT(<< "REJECT", C.id, why, "bitpos", pos, "count", cnt >>)
               /\ Done(Append(bad, C.id))

HasBits(bytes, p, k) == p + k <= NBits(bytes)
CodeIs(p, c) == HasBits(C.out, p, O.w) /\ Field(C.out, p, O.w, O.ord) = c
HdrIs(k) == O.hb = 0 \/ (HasBits(C.out, hpos, O.hb) /\ Field(C.out, hpos, O.hb, O.ord) = (k * O.w) \div O.hd)
EndsAt(p) == Len(C.out) = BytesFor(p) /\ \A q \in p..(NBits(C.out) - 1) : BitAt(C.out, q, O.ord) = 0

(* ---- coder ---- *)
LoadEnc == /\ pc = "load" /\ ci <= Len(Cases) /\ C.k = "enc" /\ Tick
           /\ IF ~Consistent(O) THEN Reject("options") ELSE
              /\ d' = DictInit(O) /\ ip' = 1 /\ hpos' = 0 /\ pos' = O.hb /\ n' = 0 /\ pc' = "enc"
              /\ UNCHANGED << ci, prev, left, cnt, bad >>

\* the code of the longest match; then chunk closing if the chunk is full
EncCode ==
    /\ pc = "enc" /\ ip <= Len(C.in) /\ Tick
    /\ LET g    == Greedy(d, C.in, ip)
           last == g.i > Len(C.in)
           p1   == pos + O.w
       IN  IF ~CodeIs(pos, g.code) THEN Reject(<< "code", g.code, "for input at", ip >>)
           ELSE IF last \/ n + 1 < O.chunk
           THEN /\ d' = IF last THEN d ELSE DictAdd(O, d, g.code, C.in[g.i])
                /\ ip' = g.i /\ pos' = p1 /\ n' = n + 1 /\ cnt' = cnt + 1
                /\ UNCHANGED << ci, pc, prev, hpos, left, bad >>
           ELSE LET cl == O.clear # NoCode
                    k  == IF cl THEN n + 2 ELSE n + 1
                    p2 == IF cl THEN p1 + O.w ELSE p1
                IN  IF cl /\ ~CodeIs(p1, O.clear) THEN Reject("clear code")
                    ELSE IF ~HdrIs(k) THEN Reject(<< "header", k >>)
                    ELSE /\ d' = DictInit(O) /\ ip' = g.i /\ hpos' = p2 /\ pos' = p2 + O.hb /\ n' = 0
                         /\ cnt' = cnt + 1
                         /\ UNCHANGED << ci, pc, prev, left, bad >>

EncEnd ==
    /\ pc = "enc" /\ ip > Len(C.in) /\ Tick
    /\ LET st == O.stop # NoCode
           p1 == IF st THEN pos + O.w ELSE pos
           k  == IF st THEN n + 1 ELSE n
       IN  IF st /\ ~CodeIs(pos, O.stop) THEN Reject("stop code")
           ELSE IF ~HdrIs(k) THEN Reject(<< "last header", k >>)
           ELSE IF EndsAt(p1) THEN Accept ELSE Reject("end of stream")

(* ---- decoder ---- *)
LoadDec == /\ pc = "load" /\ ci <= Len(Cases) /\ C.k = "dec" /\ Tick
           /\ IF ~Consistent(O) THEN Reject("options") ELSE
              /\ d' = DictInit(O) /\ pc' = (IF O.hb > 0 THEN "hdr" ELSE "dec")
              /\ left' = NoCode /\ pos' = 0 /\ cnt' = 0
              /\ UNCHANGED << ci, prev, ip, n, hpos, bad >>

OkEnd  == IF C.res = "ok" /\ cnt = Len(C.out) THEN Accept ELSE Reject("data should have ended here")
ErrEnd == IF C.res = "err" THEN Accept ELSE Reject("bad code accepted")

DecHdr == /\ pc = "hdr" /\ Tick
          /\ IF ~HasBits(C.in, pos, O.hb) THEN OkEnd
             ELSE /\ left' = O.hd * Field(C.in, pos, O.hb, O.ord) /\ pos' = pos + O.hb
                  /\ pc' = IF left' = 0 THEN "hdr" ELSE "dec"
                  /\ d' = DictInit(O) /\ prev' = NoCode
                  /\ UNCHANGED << ci, ip, n, hpos, cnt, bad >>

FreshChunk == /\ d' = DictInit(O) /\ prev' = NoCode /\ left' = NoCode
              /\ pc' = IF O.hb > 0 THEN "hdr" ELSE "dec"

DecCode ==
    /\ pc = "dec" /\ Tick
    /\ IF ~HasBits(C.in, pos, O.w) THEN OkEnd
       ELSE LET c == Field(C.in, pos, O.w, O.ord) IN
            IF c = O.stop THEN OkEnd
            ELSE IF c = O.clear
            THEN FreshChunk /\ pos' = pos + O.w /\ UNCHANGED << ci, ip, n, hpos, cnt, bad >>
            ELSE LET r == Denotes(O, d, prev, c) IN
                 IF ~r.ok THEN ErrEnd
                 ELSE IF C.res = "ok" /\ ~(/\ cnt + Len(r.str) <= Len(C.out)
                                           /\ \A i \in 1..Len(r.str) : C.out[cnt + i] = r.str[i])
                 THEN Reject(<< "output for code", c >>)
                 ELSE /\ cnt' = cnt + Len(r.str) /\ pos' = pos + O.w
                      /\ IF left # NoCode /\ left <= O.w THEN FreshChunk
                         ELSE /\ d' = TLCEval(Learn(O, d, prev, r.str)) /\ prev' = c
                              /\ left' = (IF left = NoCode THEN NoCode ELSE left - O.w) /\ pc' = pc
                      /\ UNCHANGED << ci, ip, n, hpos, bad >>

Finish == /\ pc = "load" /\ ci = Len(Cases) + 1 /\ pc' = "done" /\ Tick
          /\ PrintT(<< "DONE", Len(Cases), Len(bad) >>)
          /\ UNCHANGED << ci, d, prev, ip, pos, n, hpos, left, cnt, bad >>

Next == LoadEnc \/ EncCode \/ EncEnd \/ LoadDec \/ DecHdr \/ DecCode \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
