------------------------------ MODULE LZSSAbs ------------------------------
(***************************************************************************)
(* The LZSS stage without bounds: any window and lookahead with            *)
(* 2F <= N, any alphabet, any input, and a coder that may put out any      *)
(* match its ring shows (not just the longest one, nor the one a tree      *)
(* finds).  The coder's ring holds the lookahead too, so that matches may  *)
(* only be N - F back; the decoder copies byte by byte, overlapping        *)
(* copies included.                                                        *)
(*  - LZSSProof proves, with TLAPS, that the decoder's output is always    *)
(*    what the coder was given;                                            *)
(*  - LZSSRefines checks, with TLC, that the coder of module LZH (binary   *)
(*    trees, greedy), from which the implementation is driven, and its     *)
(*    decoder refine this module.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS N, F, Sym, Pre, Zero
ASSUME Sizes == N \in Nat /\ F \in Nat /\ F >= 1 /\ 2 * F <= N /\ Pre \in Sym /\ Zero \in Sym

VARIABLES inp, ended,            \* input taken in so far; is there no more?
          buf, er, i, skip,      \* coder: ring, place in it, bytes coded and slid over, bytes still to slide over
          out, win, dr,          \* decoder: output, ring, place in it
          todo, dist             \* bytes still to be copied, distance
enc  == << inp, ended, buf, er, i >>
vars == << inp, ended, buf, er, i, skip, out, win, dr, todo, dist >>

Idx == 0..(N - 1)
Wrap(x) == IF x >= N THEN x - N ELSE IF x < 0 THEN x + N ELSE x
\* the j-th byte of f, or of the initial window (which is followed by F zeros)
At(f, j) == IF j >= 1 THEN f[j] ELSE IF j > F - N THEN Pre ELSE Zero
Left == Len(inp) - i

Init == /\ inp \in Seq(Sym) /\ Len(inp) <= F /\ ended = (Len(inp) < F)
        /\ buf \in [Idx -> Sym]
        /\ \A x \in Idx : x < N - F => buf[x] = Pre
        /\ \A k \in 1..Len(inp) : buf[N - F + k - 1] = inp[k]
        /\ er = N - F /\ i = 0 /\ skip = 0
        /\ out = << >> /\ win = [x \in Idx |-> IF x < N - F THEN Pre ELSE Zero] /\ dr = N - F
        /\ todo = 0 /\ dist = 0

Put(b) == out' = Append(out, b) /\ win' = [win EXCEPT ![dr] = b] /\ dr' = Wrap(dr + 1)

Literal == /\ skip = 0 /\ todo = 0 /\ Left > 0
           /\ Put(buf[er]) /\ skip' = 1
           /\ UNCHANGED << inp, ended, buf, er, i, todo, dist >>
Match(n, d) ==
    /\ skip = 0 /\ todo = 0 /\ n \in 1..Left /\ d \in 1..(N - F)
    /\ \A k \in 0..(n - 1) : buf[Wrap(er + k)] = buf[Wrap(er - d + k)]
    /\ skip' = n /\ todo' = n /\ dist' = d
    /\ UNCHANGED << inp, ended, buf, er, i, out, win, dr >>
Copy == /\ todo > 0 /\ Put(win[Wrap(dr - dist)]) /\ todo' = todo - 1
        /\ UNCHANGED << inp, ended, buf, er, i, skip, dist >>
\* the coder slides on, taking in c, or nothing
Slide(c) == /\ skip > 0 /\ ~ended /\ c \in Sym
            /\ inp' = Append(inp, c) /\ buf' = [buf EXCEPT ![Wrap(er + F)] = c]
            /\ er' = Wrap(er + 1) /\ i' = i + 1 /\ skip' = skip - 1
            /\ UNCHANGED << ended, out, win, dr, todo, dist >>
Drain == /\ skip > 0 /\ ended' = TRUE
         /\ er' = Wrap(er + 1) /\ i' = i + 1 /\ skip' = skip - 1
         /\ UNCHANGED << inp, buf, out, win, dr, todo, dist >>

Next == Literal \/ (\E n \in 1..F, d \in 1..N : Match(n, d)) \/ Copy \/ (\E c \in Sym : Slide(c)) \/ Drain
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* nothing wrong is ever put out, and in the end everything has been
Lossless == /\ Len(out) <= Len(inp) /\ \A j \in 1..Len(out) : out[j] = inp[j]
            /\ Left = 0 /\ todo = 0 => out = inp
=============================================================================
