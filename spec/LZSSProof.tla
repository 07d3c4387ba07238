----------------------------- MODULE LZSSProof -----------------------------
(***************************************************************************)
(* Proof (TLAPS, all obligations discharged by its SMT backend) that       *)
(* LZSSAbs loses nothing, for every window, lookahead, alphabet, input and *)
(* choice of matches.                                                      *)
(***************************************************************************)
EXTENDS LZSSAbs, TLAPS, SequenceTheorems

Types == /\ inp \in Seq(Sym) /\ out \in Seq(Sym) /\ ended \in BOOLEAN
         /\ buf \in [Idx -> Sym] /\ win \in [Idx -> Sym] /\ er \in Idx /\ dr \in Idx
         /\ i \in Nat /\ skip \in Nat /\ todo \in Nat /\ dist \in Nat
Counts == /\ i <= Len(inp) /\ Left <= F /\ (~ended => Left = F)
          /\ skip <= Left /\ i + skip = Len(out) + todo
Ring == \A t \in (1 - Left)..(N - F) : buf[Wrap(er - t)] = At(inp, i + 1 - t)
Window == \A t \in 1..N : win[Wrap(dr - t)] = At(out, Len(out) + 1 - t)
Right == \A j \in 1..Len(out) : out[j] = inp[j]
Due == todo > 0 => /\ dist \in 1..(N - F)
                   /\ \A k \in 1..todo : inp[Len(out) + k] = At(inp, Len(out) + k - dist)
Inv == Types /\ Counts /\ Ring /\ Window /\ Right /\ Due

LEMMA WrapIdx == ASSUME NEW x \in Int, x >= -N, x < 2 * N PROVE Wrap(x) \in Idx
BY Sizes DEF Wrap, Idx

LEMMA Lens == ASSUME Types PROVE Len(inp) \in Nat /\ Len(out) \in Nat
BY LenProperties DEF Types

LEMMA App == ASSUME NEW s \in Seq(Sym), NEW b \in Sym
             PROVE  /\ Append(s, b) \in Seq(Sym) /\ Len(Append(s, b)) = Len(s) + 1
                    /\ \A j \in 1..Len(s) : Append(s, b)[j] = s[j]
                    /\ Append(s, b)[Len(s) + 1] = b
BY AppendProperties

LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv
  OBVIOUS
<1>1. Types
  BY Sizes, EmptySeq DEF Init, Types, Idx
<1>2. Len(inp) \in Nat /\ Len(out) = 0
  BY <1>1, Lens DEF Init
<1>3. Counts
  BY <1>2 DEF Init, Counts, Left
<1>4. Ring
  <2> SUFFICES ASSUME NEW t \in (1 - Left)..(N - F) PROVE buf[Wrap(er - t)] = At(inp, i + 1 - t)
    BY DEF Ring
  <2>0. t \in Int /\ Left = Len(inp) /\ er = N - F /\ i = 0
    BY <1>2 DEF Init, Left
  <2>1. CASE t >= 1
    <3>1. N - F - t \in Idx /\ N - F - t < N - F /\ Wrap(er - t) = N - F - t
      BY <2>0, <2>1, Sizes DEF Wrap, Idx
    <3>2. At(inp, i + 1 - t) = Pre
      BY <2>0, <2>1, Sizes DEF At
    <3> QED BY <3>1, <3>2 DEF Init
  <2>2. CASE t < 1
    <3>1. 1 - t \in 1..Len(inp) /\ Wrap(er - t) = N - F + (1 - t) - 1
      BY <1>2, <2>0, <2>2, Sizes DEF Wrap, Init
    <3>2. At(inp, i + 1 - t) = inp[1 - t]
      BY <2>0, <2>2 DEF At
    <3> QED BY <3>1, <3>2 DEF Init
  <2> QED BY <2>0, <2>1, <2>2
<1>5. Window
  BY <1>2, Sizes DEF Init, Window, At, Wrap, Idx
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Inv, Right, Due, Init

\* what becomes of the decoder when it puts out the right byte
LEMMA PutInv == ASSUME Types, Window, Right, Len(out) < Len(inp), NEW b \in Sym, b = inp[Len(out) + 1], Put(b), inp' = inp
                PROVE  /\ out' \in Seq(Sym) /\ win' \in [Idx -> Sym] /\ dr' \in Idx
                       /\ Len(out') = Len(out) + 1 /\ Window' /\ (\A j \in 1..Len(out') : out'[j] = inp[j])
<1>0. Len(out) \in Nat /\ Len(inp) \in Nat /\ dr \in Idx
  BY Lens DEF Types
<1>1. /\ out' \in Seq(Sym) /\ Len(out') = Len(out) + 1
      /\ (\A j \in 1..Len(out) : out'[j] = out[j]) /\ out'[Len(out) + 1] = b
  BY App DEF Types, Put
<1>2. win' \in [Idx -> Sym] /\ dr' \in Idx
  BY <1>0, WrapIdx, Sizes DEF Types, Put, Wrap, Idx
<1>3. \A j \in 1..Len(out') : out'[j] = inp[j]
  BY <1>0, <1>1 DEF Right
<1>4. Window'
  <2> SUFFICES ASSUME NEW t \in 1..N PROVE win'[Wrap(dr' - t)] = At(out', Len(out') + 1 - t)
    BY DEF Window
  <2>1. CASE t = 1
    <3>1. Wrap(dr' - t) = dr
      BY <1>0, <2>1, Sizes DEF Put, Wrap, Idx
    <3>2. At(out', Len(out') + 1 - t) = b
      BY <1>0, <1>1, <2>1 DEF At
    <3> QED BY <1>0, <3>1, <3>2 DEF Put, Types
  <2>2. CASE t # 1
    <3>1. t - 1 \in 1..N /\ Wrap(dr' - t) = Wrap(dr - (t - 1)) /\ Wrap(dr - (t - 1)) # dr /\ Wrap(dr - (t - 1)) \in Idx
      BY <1>0, <2>2, Sizes DEF Put, Wrap, Idx
    <3>2. win'[Wrap(dr' - t)] = win[Wrap(dr - (t - 1))]
      BY <3>1 DEF Put, Types
    <3>3. win[Wrap(dr - (t - 1))] = At(out, Len(out) + 1 - (t - 1))
      BY <3>1 DEF Window
    <3>4. At(out', Len(out') + 1 - t) = At(out, Len(out) + 1 - (t - 1))
      <4>1. Len(out') + 1 - t = Len(out) + 1 - (t - 1) /\ Len(out) + 1 - (t - 1) <= Len(out) /\ Len(out) + 1 - (t - 1) \in Int
        BY <1>0, <1>1, <2>2
      <4> QED BY <1>0, <1>1, <4>1 DEF At
    <3> QED BY <3>2, <3>3, <3>4
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>3, <1>4

LEMMA LiteralInv == ASSUME Inv, Literal PROVE Inv'
<1>0. Len(out) \in Nat /\ Len(inp) \in Nat /\ i = Len(out) /\ Left > 0 /\ Left \in Nat /\ er \in Idx /\ i < Len(inp)
  BY Lens DEF Inv, Types, Counts, Literal, Left
<1>1. buf[er] = inp[i + 1] /\ buf[er] \in Sym
  <2>1. 0 \in (1 - Left)..(N - F) /\ Wrap(er - 0) = er
    BY <1>0, Sizes DEF Wrap, Idx
  <2>2. buf[Wrap(er - 0)] = At(inp, i + 1 - 0)
    BY <2>1 DEF Inv, Ring
  <2> QED BY <1>0, <2>1, <2>2 DEF Inv, Types, At
<1>2. /\ out' \in Seq(Sym) /\ win' \in [Idx -> Sym] /\ dr' \in Idx
      /\ Len(out') = Len(out) + 1 /\ Window' /\ (\A j \in 1..Len(out') : out'[j] = inp[j])
  BY <1>0, <1>1, PutInv DEF Inv, Literal
<1>3. Types'
  BY <1>2 DEF Inv, Types, Literal
<1>4. Counts'
  BY <1>0, <1>2 DEF Inv, Counts, Literal, Left, Types
<1>5. Ring'
  BY DEF Inv, Ring, Literal, Left, At
<1>6. Right' /\ Due'
  BY <1>2 DEF Right, Due, Literal
<1> QED BY <1>2, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA MatchInv == ASSUME Inv, NEW n \in 1..F, NEW d \in 1..N, Match(n, d) PROVE Inv'
<1>0. /\ Len(out) \in Nat /\ Len(inp) \in Nat /\ i = Len(out) /\ Left \in Nat /\ er \in Idx /\ i \in Nat
      /\ n \in 1..Left /\ d \in 1..(N - F) /\ Left <= F /\ Left = Len(inp) - i
  BY Lens DEF Inv, Types, Counts, Match, Left
<1>1. ASSUME NEW k \in 1..n PROVE inp[i + k] = At(inp, i + k - d)
  <2>1. buf[Wrap(er + (k - 1))] = buf[Wrap(er - d + (k - 1))]
    BY <1>0 DEF Match
  <2>2. 1 - k \in (1 - Left)..(N - F) /\ d - (k - 1) \in (1 - Left)..(N - F)
    BY <1>0, Sizes
  <2>3. buf[Wrap(er - (1 - k))] = At(inp, i + 1 - (1 - k)) /\ buf[Wrap(er - (d - (k - 1)))] = At(inp, i + 1 - (d - (k - 1)))
    BY <2>2 DEF Inv, Ring
  <2>4. /\ er - (1 - k) = er + (k - 1) /\ er - (d - (k - 1)) = er - d + (k - 1)
        /\ i + 1 - (1 - k) = i + k /\ i + 1 - (d - (k - 1)) = i + k - d /\ i + k >= 1
    BY <1>0 DEF Idx
  <2>5. At(inp, i + k) = inp[i + k]
    BY <2>4 DEF At
  <2> QED BY <2>1, <2>3, <2>4, <2>5
<1>2. Types'
  BY <1>0 DEF Inv, Types, Match
<1>3. Counts'
  BY <1>0 DEF Inv, Counts, Match, Left
<1>4. Ring' /\ Window' /\ Right'
  BY DEF Inv, Ring, Window, Right, Match, Left, At
<1>5. Due'
  BY <1>0, <1>1 DEF Due, Match, At
<1> QED BY <1>2, <1>3, <1>4, <1>5 DEF Inv

LEMMA CopyInv == ASSUME Inv, Copy PROVE Inv'
<1>0. /\ Len(out) \in Nat /\ Len(inp) \in Nat /\ i \in Nat /\ todo \in Nat /\ todo > 0 /\ dist \in 1..(N - F) /\ dr \in Idx
      /\ Len(out) + todo = i + skip /\ i + skip <= Len(inp) /\ skip \in Nat
  BY Lens DEF Inv, Types, Counts, Copy, Left, Due
<1>1. win[Wrap(dr - dist)] = At(out, Len(out) + 1 - dist) /\ win[Wrap(dr - dist)] \in Sym
  <2>1. dist \in 1..N /\ Wrap(dr - dist) \in Idx
    BY <1>0, Sizes DEF Wrap, Idx
  <2> QED BY <2>1 DEF Inv, Window, Types
<1>2. At(out, Len(out) + 1 - dist) = At(inp, Len(out) + 1 - dist)
  BY <1>0 DEF Inv, Right, At
<1>3. inp[Len(out) + 1] = At(inp, Len(out) + 1 - dist)
  BY <1>0 DEF Inv, Due
<1>4. /\ out' \in Seq(Sym) /\ win' \in [Idx -> Sym] /\ dr' \in Idx
      /\ Len(out') = Len(out) + 1 /\ Window' /\ (\A j \in 1..Len(out') : out'[j] = inp[j])
  BY <1>0, <1>1, <1>2, <1>3, PutInv DEF Inv, Copy
<1>5. Types'
  BY <1>0, <1>4 DEF Inv, Types, Copy
<1>6. Counts'
  BY <1>0, <1>4 DEF Inv, Counts, Copy, Left
<1>7. Ring' /\ Right'
  BY <1>4 DEF Inv, Ring, Right, Copy, Left, At
<1>8. Due'
  <2> SUFFICES ASSUME todo - 1 > 0, NEW k \in 1..(todo - 1)
               PROVE  inp[Len(out) + 1 + k] = At(inp, Len(out) + 1 + k - dist)
    BY <1>0, <1>4 DEF Due, Copy, At
  <2>1. k + 1 \in 1..todo /\ Len(out) + (k + 1) = Len(out) + 1 + k
    BY <1>0
  <2>2. inp[Len(out) + (k + 1)] = At(inp, Len(out) + (k + 1) - dist)
    BY <1>0, <2>1 DEF Inv, Due
  <2>3. Len(out) + (k + 1) - dist = Len(out) + 1 + k - dist
    BY <1>0
  <2> QED BY <2>1, <2>2, <2>3
<1> QED BY <1>4, <1>5, <1>6, <1>7, <1>8 DEF Inv

\* the coder's ring after sliding on; the lookahead is full beforehand if c is taken in
LEMMA SlideInv == ASSUME Inv, NEW c \in Sym, Slide(c) PROVE Inv'
<1>0. /\ Len(out) \in Nat /\ Len(inp) \in Nat /\ i \in Nat /\ er \in Idx /\ Left = F /\ Left = Len(inp) - i /\ skip \in Nat /\ todo \in Nat
      /\ skip > 0 /\ Len(out) + todo = i + skip /\ i + skip <= Len(inp) /\ ended = FALSE
  BY Lens DEF Inv, Types, Counts, Slide, Left
<1>1. /\ inp' \in Seq(Sym) /\ Len(inp') = Len(inp) + 1
      /\ (\A j \in 1..Len(inp) : inp'[j] = inp[j]) /\ inp'[Len(inp) + 1] = c
  BY App DEF Inv, Types, Slide
<1>2. Wrap(er + F) \in Idx /\ Wrap(er + 1) \in Idx
  BY <1>0, Sizes DEF Wrap, Idx
<1>3. Types'
  BY <1>0, <1>1, <1>2 DEF Inv, Types, Slide
<1>4. Left' = F /\ Counts'
  BY <1>0, <1>1 DEF Inv, Counts, Slide, Left
<1>5. Ring'
  <2> SUFFICES ASSUME NEW t \in (1 - F)..(N - F) PROVE buf'[Wrap(er' - t)] = At(inp', i' + 1 - t)
    BY <1>4 DEF Ring
  <2>1. CASE t = 1 - F
    <3>1. Wrap(er' - t) = Wrap(er + F)
      BY <1>0, <2>1, Sizes DEF Slide, Wrap, Idx
    <3>2. i' + 1 - t = Len(inp) + 1
      BY <1>0, <2>1, Sizes DEF Slide
    <3> QED BY <1>0, <1>1, <1>2, <3>1, <3>2 DEF Inv, Types, Slide, At
  <2>2. CASE t # 1 - F
    <3>1. t - 1 \in (1 - Left)..(N - F)
      BY <1>0, <2>2, Sizes
    <3>2. Wrap(er' - t) = Wrap(er - (t - 1)) /\ Wrap(er - (t - 1)) # Wrap(er + F) /\ Wrap(er - (t - 1)) \in Idx
      BY <1>0, <3>1, Sizes DEF Slide, Wrap, Idx
    <3>3. buf'[Wrap(er' - t)] = buf[Wrap(er - (t - 1))]
      BY <1>2, <3>2 DEF Slide, Inv, Types
    <3>4. buf[Wrap(er - (t - 1))] = At(inp, i + 1 - (t - 1))
      BY <3>1 DEF Inv, Ring
    <3>5. i' + 1 - t = i + 1 - (t - 1) /\ i + 1 - (t - 1) <= Len(inp) /\ i + 1 - (t - 1) \in Int
      BY <1>0, <3>1, Sizes DEF Slide
    <3>6. At(inp', i' + 1 - t) = At(inp, i + 1 - (t - 1))
      BY <1>0, <1>1, <3>5 DEF At
    <3> QED BY <3>3, <3>4, <3>6
  <2> QED BY <2>1, <2>2
<1>6. Window' /\ Right'
  BY <1>0, <1>1 DEF Inv, Window, Right, Slide, At, Counts
<1>7. Due'
  <2> SUFFICES ASSUME todo > 0, NEW k \in 1..todo PROVE inp'[Len(out) + k] = At(inp', Len(out) + k - dist)
    BY DEF Due, Slide, Inv
  <2>1. inp[Len(out) + k] = At(inp, Len(out) + k - dist) /\ dist \in 1..(N - F)
    BY DEF Inv, Due
  <2>2. Len(out) + k \in 1..Len(inp) /\ Len(out) + k - dist <= Len(inp) /\ Len(out) + k - dist \in Int
    BY <1>0, <2>1, Sizes
  <2> QED BY <1>0, <1>1, <2>1, <2>2 DEF At
<1> QED BY <1>3, <1>4, <1>5, <1>6, <1>7 DEF Inv

LEMMA DrainInv == ASSUME Inv, Drain PROVE Inv'
<1>0. /\ Len(out) \in Nat /\ Len(inp) \in Nat /\ i \in Nat /\ er \in Idx /\ Left <= F /\ Left = Len(inp) - i /\ skip \in Nat /\ todo \in Nat
      /\ skip > 0 /\ Len(out) + todo = i + skip /\ i + skip <= Len(inp)
  BY Lens DEF Inv, Types, Counts, Drain, Left
<1>2. Wrap(er + 1) \in Idx
  BY <1>0, Sizes DEF Wrap, Idx
<1>3. Types'
  BY <1>0, <1>2 DEF Inv, Types, Drain
<1>4. Left' = Left - 1 /\ Counts'
  <2>1. Left' = Left - 1 /\ i' = i + 1 /\ skip' = skip - 1 /\ Len(inp') = Len(inp) /\ Len(out') = Len(out) /\ todo' = todo /\ ended' = TRUE
    BY <1>0 DEF Drain, Left
  <2>2. i + 1 <= Len(inp) /\ Left - 1 <= F /\ skip - 1 <= Left - 1 /\ i + 1 + (skip - 1) = Len(out) + todo
    BY <1>0, Sizes
  <2> QED BY <1>0, <2>1, <2>2 DEF Counts
<1>5. Ring'
  <2> SUFFICES ASSUME NEW t \in (1 - (Left - 1))..(N - F) PROVE buf[Wrap(er' - t)] = At(inp, i' + 1 - t)
    BY <1>4 DEF Ring, Drain, At
  <2>1. t - 1 \in (1 - Left)..(N - F)
    BY <1>0, Sizes
  <2>2. Wrap(er' - t) = Wrap(er - (t - 1))
    BY <1>0, <2>1, Sizes DEF Drain, Wrap, Idx
  <2>3. buf[Wrap(er - (t - 1))] = At(inp, i + 1 - (t - 1))
    BY <2>1 DEF Inv, Ring
  <2>4. i' + 1 - t = i + 1 - (t - 1)
    BY <1>0 DEF Drain
  <2> QED BY <2>2, <2>3, <2>4
<1>6. Window' /\ Right' /\ Due'
  BY DEF Inv, Window, Right, Due, Drain, At
<1> QED BY <1>3, <1>4, <1>5, <1>6 DEF Inv

THEOREM Always == Spec => []Inv
<1>1. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF Inv, Types, Counts, Ring, Window, Right, Due, Left, At, vars
  <2> QED BY <2>1, LiteralInv, MatchInv, CopyInv, SlideInv, DrainInv DEF Next
<1> QED BY <1>1, InitInv, PTL DEF Spec

LEMMA InvLossless == Inv => Lossless
<1> SUFFICES ASSUME Inv PROVE Lossless
  OBVIOUS
<1>0. Len(out) \in Nat /\ Len(inp) \in Nat /\ i \in Nat /\ skip \in Nat /\ todo \in Nat
  BY Lens DEF Inv, Types
<1>1. Len(out) <= Len(inp)
  BY <1>0 DEF Inv, Counts, Left
<1>2. ASSUME Left = 0, todo = 0 PROVE out = inp
  <2>1. Len(out) = Len(inp)
    BY <1>0, <1>2 DEF Inv, Counts, Left
  <2> QED BY <1>0, <2>1, SeqEqual DEF Inv, Right, Types
<1> QED BY <1>1, <1>2 DEF Lossless, Inv, Right

THEOREM RoundTrip == Spec => []Lossless
BY Always, InvLossless, PTL
=============================================================================
