-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The library seen from outside: calls that compress (op "C") or expand   *)
(* (op "X") a value with a codec m, by way of caller's objects.            *)
(*                                                                         *)
(* Values are abstract (small integers; equal bytes, equal integer).  What *)
(* a codec makes of a value is not interpreted here (modules LZW and LZH   *)
(* do that); a behaviour of the library is legal iff there are functions   *)
(*        Comp : Codec \X Value -> Value,   Exp : Codec \X Value -> Result *)
(* with the laws below that explain all calls of the history.  The state   *)
(* is what the history so far reveals of these functions.                  *)
(*                                                                         *)
(* A call e is a record; see session.rs for the fields.                    *)
(***************************************************************************)
EXTENDS TD0, FiniteSets

(***************************************************************************)
(* Codecs                                                                  *)
(***************************************************************************)
\* two implementations of the same compressed format
Canon(m) == IF m = "port" THEN "lzss:std" ELSE m
Alike(m) == IF Canon(m) = "lzss:std" THEN {"lzss:std", "port"} ELSE {m}
\* does expansion of e possibly add up to seven bytes from the padding?
Padded(e) == \/ e.fam = "lzss" /\ e.hdr = 0
             \/ e.fam = "td0" /\ Len(e.h) = 12 /\ e.h[5] >= 20

Lossless(fam) == CASE fam = "lzw" -> "C01" [] fam = "lzss" -> "C02" [] fam = "port" -> "C03" [] fam = "td0" -> "C11"

\* lengths are pairs << n \div 65536, n % 65536 >>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Limit(e) == IF e.setlim = 1 THEN e.lim
            ELSE IF e.fam = "port" THEN << 65535, 65535 >>
            ELSE IF e.fam = "td0" THEN << 45, 50892 >>          \* 3,000,012, header included
            ELSE IF e.m \in {"lzw:td", "lzss:td"} THEN << 45, 50880 >>   \* 3,000,000
            ELSE << 16383, 65535 >>                              \* 1,073,741,823
TooLarge(e) == /\ Less(Limit(e), e.len)
               /\ ~(e.fam = "port" /\ e.op = "X")                \* decoding has no limit
Unspecified(e) == e.fam = "port" /\ e.len = << 65535, 65535 >>

IsErr(r) == r \notin {"ok", "panic"}
Class(r) == IF r \in {"ok", "panic", "ffm", "big", "crc"} THEN r ELSE "err"

(***************************************************************************)
(* The state: what is known.                                               *)
(*   base  : << m, op, x >>   -> [r, y, yl]                                *)
(*   comp  : << canon m, x >> -> [y, m]   (who said so first)              *)
(*   orig  : << canon m, y >> -> [x, m]                                    *)
(*   cut   : << m, y >>       -> longest cut so far and what it gave       *)
(***************************************************************************)
Nothing == [base |-> << >>, comp |-> << >>, orig |-> << >>, cut |-> << >>]
Known(f, k) == k \in DOMAIN f
Add(f, k, v) == IF k \in DOMAIN f THEN f ELSE (k :> v) @@ f
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f

Max(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* The laws, as sets of << property, what >> that call e violates, K being *)
(* the knowledge before it.  (What is a tuple whose first component is a   *)
(* string of its own for each law, so that TLC can compare them.)          *)
(***************************************************************************)
If(c, p, what) == IF c THEN { << p, what >> } ELSE {}

\* C16: the injected failure surfaces as an error
FaultLaw(e) == If(e.fired = 1 /\ ~IsErr(e.r), "C16", << "failing I/O operation", e.fail, e.r >>)

\* C13
LimitLaw(e) ==
    IF Unspecified(e) THEN {}
    ELSE IF e.fam = "td0" /\ HdrClass(e.op, e.h) # "valid" THEN {}
    ELSE IF TooLarge(e)
    THEN If(e.r # "big", "C13", << "not refused", e.r >>)
         \cup If(e.r = "big" /\ e.hw > 0, "C13", << "written before the refusal" >>)
         \cup If(e.r = "big" /\ e.virt = 0 /\ e.un = 0, "C13", << "output touched" >>)
    ELSE If(e.r = "big", "C13", << "refused" >>)
         \cup If(e.virt = 1 /\ e.r = "panic", "C13", << "panic" >>)

\* C09, and compression that fails outright
PanicLaw(e) ==
    IF e.op = "X"
    THEN If(e.r = "panic", "C09", << "panic" >>) \cup If(e.run = 1, "C09", << "output out of proportion" >>)
         \cup If(e.r = "panic" /\ e.full # 0, "C10", << "panic" >>)
    ELSE If(e.r = "panic" \/ e.run = 1, Lossless(e.fam), << "compression", e.r >>)

Codes(e) == (8 * e.xl) \div e.w
BoundLaw(e) ==
    IF e.op # "X" \/ e.r # "ok" THEN {}
    ELSE If(e.hl >= 0 /\ e.yl - Max(e.F - 1, 0) > e.hl, "C09", << "more output than announced" >>)
         \cup If(e.fam = "lzw" /\ Codes(e) < 40000 /\ 2 * e.yl > Codes(e) * (Codes(e) + 1), "C09", << "more output than codes denote" >>)
         \cup If(e.fam = "lzss" /\ e.xl < 1000000 /\ e.yl > 8 * e.F * e.xl, "C09", << "more output than tokens denote" >>)

\* C11, C12
HdrLaw(e) ==
    IF e.fam # "td0" THEN {}
    ELSE LET c == HdrClass(e.op, e.h) IN
        (CASE c = "short"  -> If(~IsErr(e.r), "C12", << "short header", e.r >>)
           [] c = "sig"    -> If(e.r # "ffm", "C12", << "wrong signature", e.r >>)
           [] c = "crc"    -> If(e.r # "crc", "C12", << "wrong checksum", e.r >>)
           [] c = "sigcrc" -> If(e.r \notin {"ffm", "crc"}, "C12", << "wrong signature and checksum", e.r >>)
           [] OTHER        -> \* (a format mismatch may still come from the body's LZW codes)
                              If(e.r = "crc" \/ (e.r = "ffm" /\ (e.op = "C" \/ e.h[5] >= 20 \/ (e.un = 1 /\ e.io # "slice"))),
                                 "C12", << "valid header refused", e.r >>))
         \cup (IF c = "valid" THEN {} ELSE If(e.un = 0, "C12", << "output touched" >>))
HeadOut(e) ==
    IF e.fam # "td0" \/ e.r # "ok" \/ HdrClass(e.op, e.h) # "valid" THEN {}
    ELSE If(e.g # Converted(e.op, e.h), "C11", << "header", e.g >>)
BodyLaw(e, K) ==
    IF e.fam # "td0" \/ HdrClass(e.op, e.h) # "valid" THEN {}
    ELSE LET k == << BodyCodec(e.h), e.op, e.bx >> IN
         IF ~Known(K.base, k) THEN {}
         ELSE LET b == K.base[k] IN
              If(Class(b.r) # Class(e.r), "C11", << "body", e.r, b.r >>)
              \cup If(b.r = "ok" /\ e.r = "ok" /\ b.y # e.by, "C11", << "body" >>)

\* C14
SizeLaw(e, K) ==
    IF e.r # "ok" \/ e.is < 0 THEN {}
    ELSE LET own == e.fam # "port" \/ e.op = "C" \/ Known(K.orig, << Canon(e.m), e.x >>) IN
         If(own /\ e.is # e.xl, "C14", << "input size", e.is, e.xl >>)
         \cup If(e.os # e.yl, "C14", << "output size", e.os, e.yl >>)

\* C15
Plain(e) == e.ino = 0 /\ e.outo = 0 /\ e.prel = 0
RangeLaw(e) ==
    If(e.before = 0, "C15", << "bytes before the output offset changed" >>)
    \cup If(e.after = 0, "C15", << "bytes after the output changed" >>)
    \cup If(e.src = 0, "C15", << "input modified" >>)
    \cup If(e.r = "ok" /\ e.prel > 0 /\ e.tot # Max(e.prel, IF e.yl = 0 THEN 0 ELSE e.outo + e.yl), "C15", << "output object's length" >>)

\* C15, C17: the same call always has the same result
PureLaw(e, K) ==
    LET k == << e.m, e.op, e.x >> IN
    IF ~Known(K.base, k) \/ TooLarge(e) THEN {}
    ELSE LET b == K.base[k]
             p == IF Plain(e) THEN "C17" ELSE "C15"
         IN  If(Class(b.r) # Class(e.r), p, << "outcome differs", e.r, b.r >>)
             \cup If(b.r = "ok" /\ e.r = "ok" /\ b.y # e.y, p, << "output differs" >>)

\* C01, C02, C03, C11 and C04: expanding inverts compressing
RoundLaw(e, K) ==
    LET k == << Canon(e.m), e.x >> IN
    IF e.op = "C"
    THEN If(e.r # "ok" /\ e.r # "panic" /\ ~TooLarge(e) /\ (e.fam = "td0" => HdrClass("C", e.h) = "valid"),
            Lossless(e.fam), << "compression failed", e.r >>)
         \cup (IF e.r = "ok" /\ Known(K.comp, k) /\ K.comp[k].m # e.m /\ K.comp[k].y # e.y
               THEN { << "C04", << "compressed files differ" >> >>, << "C06", << "compressed files differ" >> >> } ELSE {})
         \* (two inputs may differ only in what the padding of the one decodes to)
         \cup (IF e.r = "ok" /\ ~Padded(e) /\ Known(K.orig, << Canon(e.m), e.y >>) /\ K.orig[<< Canon(e.m), e.y >>].x # e.x
               THEN { << Lossless(e.fam), << "two inputs give the same output" >> >> } ELSE {})
         \* what has just been produced may have been expanded before
         \cup (IF e.r # "ok" \/ Padded(e) THEN {}
               ELSE UNION {LET b == K.base[<< m, "X", e.y >>] IN
                           If(b.r # "ok" \/ b.y # e.x, IF m = e.m THEN Lossless(e.fam) ELSE "C04", << "expanded otherwise before", b.r >>)
                           : m \in {n \in Alike(e.m) : Known(K.base, << n, "X", e.y >>)}})
    ELSE IF ~Known(K.orig, k) \/ TooLarge(e) THEN {}
    ELSE LET g    == K.orig[k]
             p    == IF g.m = e.m THEN Lossless(e.fam) ELSE "C04"
             good == IF Padded(e) THEN e.ref = g.x => e.lcp = e.refl /\ e.yl - e.refl <= 7
                                  ELSE e.y = g.x
         IN  If(e.r # "ok", p, << "expansion failed", e.r >>)
             \cup If(e.r = "ok" /\ ~good, p, << "not the original", e.lcp, e.yl >>)

\* C10: a cut compressed file gives a prefix, and less of it the more is cut
CutLaw(e, K) ==
    IF e.full = 0 \/ e.op = "C" \/ e.fam = "port" \/ e.r # "ok" THEN {}
    ELSE LET k == << e.m, e.full >> IN
         If(e.lcp # MinOf(e.yl, e.refl), "C10", << "not a prefix", e.lcp, e.yl >>)
         \cup If(e.yl > e.refl + (IF Padded(e) THEN 7 ELSE 0), "C10", << "longer than the original", e.yl, e.refl >>)
         \cup (IF Known(K.cut, k) /\ K.cut[k].n <= e.xl /\ K.cut[k].yl > e.yl
               THEN { << "C10", << "less than a shorter piece gives", e.yl, K.cut[k].yl >> >> } ELSE {})

Violations(e, K) ==
    IF e.fired = 1 THEN FaultLaw(e)
    ELSE IF e.virt = 1 THEN LimitLaw(e)
    ELSE LimitLaw(e) \cup PanicLaw(e) \cup BoundLaw(e) \cup HdrLaw(e) \cup HeadOut(e) \cup BodyLaw(e, K)
         \cup SizeLaw(e, K) \cup RangeLaw(e) \cup PureLaw(e, K) \cup RoundLaw(e, K) \cup CutLaw(e, K)

(***************************************************************************)
(* What call e adds to the knowledge.                                      *)
(***************************************************************************)
Learn(e, K) ==
    IF e.fired = 1 \/ e.virt = 1 \/ TooLarge(e) THEN K
    ELSE LET cm == Canon(e.m)
             K1 == [K EXCEPT !.base = Add(@, << e.m, e.op, e.x >>, [r |-> e.r, y |-> e.y, yl |-> e.yl])]
         IN  IF e.op = "C" /\ e.r = "ok"
             THEN [K1 EXCEPT !.comp = Add(@, << cm, e.x >>, [y |-> e.y, m |-> e.m]),
                             !.orig = Add(@, << cm, e.y >>, [x |-> e.x, m |-> e.m])]
             ELSE IF e.op = "X" /\ e.full # 0 /\ e.r = "ok"
             THEN [K1 EXCEPT !.cut = Put(@, << e.m, e.full >>, [n |-> e.xl, yl |-> e.yl])]
             ELSE K1
=============================================================================
