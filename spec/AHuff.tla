------------------------------- MODULE AHuff -------------------------------
(***************************************************************************)
(* The adaptive Huffman table of LZHUF, as pure operators on a table       *)
(*      h = [f, p, s]                                                      *)
(* for n symbols, T = 2n-1 nodes 0..T-1 in ascending frequency order,      *)
(* root T-1.                                                               *)
(*   f[i]  frequency of node i; f[T] is a sentinel above every frequency   *)
(*   s[i]  left son of node i (right son is s[i]+1), or T+sym for a leaf   *)
(*   p[i]  parent of node i; p[T+sym] is the leaf holding symbol sym       *)
(* The table is halved and rebuilt when the root frequency reaches maxf.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

LOCAL NodeCount(n) == 2*n - 1
Root(n) == 2*n - 2

\* Initial table: all frequencies 1, nodes paired left to right.
HuffInit(n) ==
    LET T == NodeCount(n)
        RECURSIVE Fill(_, _)
        Fill(f, j) == IF j >= T THEN f
                      ELSE Fill([f EXCEPT ![j] = f[2*(j-n)] + f[2*(j-n)+1]], j + 1)
        f0 == [i \in 0..T |-> IF i < n THEN 1 ELSE IF i = T THEN 65535 ELSE 0]
    IN  [ f |-> Fill(TLCEval(f0), n),
          s |-> TLCEval([i \in 0..(T-1) |-> IF i < n THEN T + i ELSE 2*(i-n)]),
          p |-> TLCEval([i \in 0..(T+n-1) |-> IF i >= T THEN i - T
                                      ELSE IF i = T-1 THEN 0 ELSE n + (i \div 2)]) ]

(***************************************************************************)
(* Rebuild: collect the leaves in node order with halved (rounded up)      *)
(* frequencies, then create the inner nodes: each time the next two nodes  *)
(* in order get a parent, which is placed behind the last node whose       *)
(* frequency does not exceed the parent's.                                 *)
(***************************************************************************)
HuffRebuild(h, n) ==
    LET T == NodeCount(n)
        RECURSIVE Leaves(_, _)
        Leaves(i, acc) == IF i >= T THEN acc
                          ELSE Leaves(i + 1, IF h.s[i] >= T
                                             THEN Append(acc, <<(h.f[i] + 1) \div 2, h.s[i]>>)
                                             ELSE acc)
        \* last position (1-based) in 1..k of q whose frequency is <= fr
        RECURSIVE Behind(_, _, _)
        Behind(q, k, fr) == IF q[k][1] <= fr THEN k ELSE Behind(q, k - 1, fr)
        RECURSIVE Grow(_, _)
        Grow(q, j) ==      \* q: nodes 0..j-1 as a sequence
            IF j >= T THEN q
            ELSE LET i  == 2*(j - n)
                     fr == q[i+1][1] + q[i+2][1]
                     k  == Behind(q, j, fr)
                 IN  Grow(TLCEval(SubSeq(q, 1, k) \o << <<fr, i>> >> \o SubSeq(q, k + 1, j)), j + 1)
        nodes == Grow(Leaves(0, << >>), n)
        RECURSIVE Parents(_, _)
        Parents(p, i) ==
            IF i >= T THEN p
            ELSE LET k == nodes[i+1][2]
                 IN  Parents(IF k >= T THEN [p EXCEPT ![k] = i]
                             ELSE [p EXCEPT ![k] = i, ![k+1] = i], i + 1)
    IN  [ f |-> TLCEval([i \in 0..T |-> IF i = T THEN 65535 ELSE nodes[i+1][1]]),
          s |-> TLCEval([i \in 0..(T-1) |-> nodes[i+1][2]]),
          p |-> Parents(h.p, 0) ]

(***************************************************************************)
(* One more occurrence of sym.  Walking from the leaf to the root, each    *)
(* node's frequency is incremented; when that breaks the ascending order,  *)
(* the node changes places with the last node of smaller frequency.        *)
(***************************************************************************)
RECURSIVE LastBelow(_, _, _)
LastBelow(f, l, k) == IF k > f[l + 1] THEN LastBelow(f, l + 1, k) ELSE l

RECURSIVE Climb(_, _, _, _, _)
Climb(f, p, s, c, T) ==
    LET k == f[c] + 1 IN
    IF k > f[c + 1]
    THEN LET l  == LastBelow(f, c + 1, k)
             i  == s[c]
             j  == s[l]
             f2 == [f EXCEPT ![c] = f[l], ![l] = k]
             s2 == [s EXCEPT ![c] = j, ![l] = i]
             p1 == IF i < T THEN [p EXCEPT ![i] = l, ![i+1] = l] ELSE [p EXCEPT ![i] = l]
             p2 == IF j < T THEN [p1 EXCEPT ![j] = c, ![j+1] = c] ELSE [p1 EXCEPT ![j] = c]
         IN  IF l = T - 1 THEN [f |-> f2, p |-> p2, s |-> s2]
             ELSE Climb(f2, p2, s2, p2[l], T)
    ELSE LET f2 == [f EXCEPT ![c] = k]
         IN  IF c = T - 1 THEN [f |-> f2, p |-> p, s |-> s]
             ELSE Climb(f2, p, s, p[c], T)

HuffUpdate(h, n, maxf, sym) ==
    LET T == NodeCount(n)
        g == IF h.f[T-1] = maxf THEN TLCEval(HuffRebuild(h, n)) ELSE h
    IN  TLCEval(Climb(g.f, g.p, g.s, g.p[T + sym], T))

\* The code of sym: bits on the way from the root to its leaf; odd nodes are right sons.
HuffCode(h, n, sym) ==
    LET T == NodeCount(n)
        RECURSIVE Up(_, _)
        Up(c, acc) == IF c = T - 1 THEN acc ELSE Up(h.p[c], << c % 2 >> \o acc)
    IN  Up(h.p[T + sym], << >>)

(***************************************************************************)
(* Well-formedness of a table (checked exhaustively at small constants).   *)
(***************************************************************************)
HuffWF(h, n) ==
    LET T == NodeCount(n) IN
    /\ \A i \in 0..(T-1) : h.f[i] <= h.f[i+1]                      \* ascending order
    /\ \A i \in 0..(T-1) : h.s[i] < T =>
          /\ h.s[i] % 2 = 0                                        \* sons are adjacent
          /\ h.f[i] = h.f[h.s[i]] + h.f[h.s[i]+1]                  \* weights add up
          /\ h.p[h.s[i]] = i /\ h.p[h.s[i]+1] = i
          /\ h.s[i] + 1 < i
    /\ \A c \in 0..(n-1) : LET l == h.p[T+c] IN l \in 0..(T-1) /\ h.s[l] = T + c
    /\ \A i \in 0..(T-2) : h.p[i] \in 0..(T-1) /\ h.s[h.p[i]] = i - (i % 2)
    /\ {h.s[i] : i \in 0..(T-1)} = {2*k : k \in 0..(n-2)} \cup {T + c : c \in 0..(n-1)}
=============================================================================
