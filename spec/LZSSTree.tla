------------------------------ MODULE LZSSTree ------------------------------
(***************************************************************************)
(* LZSS text buffer and its match index, as in LZHUF: 256 binary search    *)
(* trees (one per first byte) over the positions of the text buffer.       *)
(*   o = [N |-> window, F |-> lookahead, T |-> threshold, pre |-> precursor]*)
(*   t = [buf, L, R, D]                                                    *)
(*   buf[0..N-1]     the ring; buf[N..N+F-2] repeats buf[0..F-2]           *)
(*   L[x], R[x]      left/right son of position x, N for none;             *)
(*                   R[N+1+c] is the root of the tree of byte c            *)
(*   D[x]            parent of position x, N when x is not indexed         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

TreeInit(o) ==
    [ buf |-> TLCEval([i \in 0..(o.N + o.F - 2) |-> IF i < o.N - o.F THEN o.pre ELSE 0]),
      L   |-> TLCEval([i \in 0..(o.N - 1) |-> o.N]),
      R   |-> TLCEval([i \in 0..(o.N + 256) |-> o.N]),
      D   |-> TLCEval([i \in 0..(o.N - 1) |-> o.N]) ]

\* store a byte at ring position x (keeping the copy of the first F-1 cells)
PutByte(t, o, x, b) ==
    IF x < o.F - 1 THEN [t EXCEPT !.buf[x] = b, !.buf[x + o.N] = b]
                   ELSE [t EXCEPT !.buf[x] = b]

\* number of equal bytes (at most F) of the strings at r and q, whose first i agree
RECURSIVE Common(_, _, _, _, _)
Common(buf, r, q, i, F) ==
    IF i < F THEN IF buf[r + i] = buf[q + i] THEN Common(buf, r, q, i + 1, F) ELSE i
    ELSE i

Dist(o, r, q) == ((r - q + o.N) % o.N) - 1

(***************************************************************************)
(* Index position r, and find the match for the string there: going down   *)
(* from the root, the longest match seen counts, of equal ones the one     *)
(* with the smaller offset.  A match of the full lookahead ends the        *)
(* search, and r takes over the place of the position matched.             *)
(* Result: [t, len, off].                                                  *)
(***************************************************************************)
Attach(t, x, right, r, N) ==
    LET t1 == IF right THEN [t EXCEPT !.R[x] = r] ELSE [t EXCEPT !.L[x] = r]
    IN  [t1 EXCEPT !.D[r] = x, !.L[r] = N, !.R[r] = N]

TakeOver(t, r, q, N) ==
    LET d  == t.D[q]
        l  == t.L[q]
        rr == t.R[q]
        D1 == [t.D EXCEPT ![r] = d, ![q] = N]
        D2 == IF l # N THEN [D1 EXCEPT ![l] = r] ELSE D1
        D3 == IF rr # N THEN [D2 EXCEPT ![rr] = r] ELSE D2
        L1 == [t.L EXCEPT ![r] = l, ![q] = N]
        R1 == [t.R EXCEPT ![r] = rr, ![q] = N]
    IN  IF t.R[d] = q THEN [t EXCEPT !.D = D3, !.L = L1, !.R = [R1 EXCEPT ![d] = r]]
                      ELSE [t EXCEPT !.D = D3, !.L = [L1 EXCEPT ![d] = r], !.R = R1]

RECURSIVE Descend(_, _, _, _, _, _, _)
Descend(t, o, r, x, right, len, off) ==
    LET q == IF right THEN t.R[x] ELSE t.L[x] IN
    IF q = o.N THEN [t |-> Attach(t, x, right, r, o.N), len |-> len, off |-> off]
    ELSE LET i    == Common(t.buf, r, q, 1, o.F)
             goR  == IF i < o.F THEN t.buf[r + i] >= t.buf[q + i] ELSE TRUE
             c    == Dist(o, r, q)
             bet  == i > o.T /\ i > len
             len2 == IF bet THEN i ELSE len
             off2 == IF bet THEN c
                     ELSE IF i > o.T /\ i = len /\ c < off THEN c ELSE off
         IN  IF bet /\ i >= o.F
             THEN [t |-> TakeOver(t, r, q, o.N), len |-> len2, off |-> off2]
             ELSE Descend(t, o, r, q, goR, len2, off2)

InsertNode(t, o, r) == TLCEval(Descend(t, o, r, o.N + 1 + t.buf[r], TRUE, 0, 0))

(***************************************************************************)
(* Remove position q from the index.  With two sons, it is replaced by the *)
(* rightmost node of its left branch.                                      *)
(***************************************************************************)
DeleteNode(t, o, q) ==
    LET N == o.N
        RECURSIVE Rightmost(_)
        Rightmost(x) == IF t.R[x] = N THEN x ELSE Rightmost(t.R[x])
        Own(D, x, d) == IF x # N THEN [D EXCEPT ![x] = d] ELSE D
        \* y replaces q below q's parent; L, R, D already describe y's branch
        Replace(L, R, D, y) ==
            LET d  == t.D[q]
                D1 == [Own(D, y, d) EXCEPT ![q] = N]
            IN  IF R[d] = q
                THEN [t EXCEPT !.L = [L EXCEPT ![q] = N], !.R = [R EXCEPT ![d] = y, ![q] = N], !.D = D1]
                ELSE [t EXCEPT !.L = [L EXCEPT ![d] = y, ![q] = N], !.R = [R EXCEPT ![q] = N], !.D = D1]
    IN  TLCEval(
        IF t.D[q] = N THEN t
        ELSE IF t.R[q] = N THEN Replace(t.L, t.R, t.D, t.L[q])
        ELSE IF t.L[q] = N THEN Replace(t.L, t.R, t.D, t.R[q])
        ELSE LET a == t.L[q] IN
             IF t.R[a] = N
             THEN Replace(t.L, [t.R EXCEPT ![a] = t.R[q]], [t.D EXCEPT ![t.R[q]] = a], a)
             ELSE LET y  == Rightmost(a)
                      d  == t.D[y]
                      R1 == [t.R EXCEPT ![d] = t.L[y], ![y] = t.R[q]]
                      D1 == [Own(t.D, t.L[y], d) EXCEPT ![a] = y, ![t.R[q]] = y]
                      L1 == [t.L EXCEPT ![y] = a]
                  IN  Replace(L1, R1, D1, y))
=============================================================================
