---------------------------- MODULE LZSSRefines ----------------------------
(***************************************************************************)
(* The coder of module LZH (ring, binary trees, greedy parse, lazy end)    *)
(* and a byte-wise decoder refine LZSSAbs (any match the ring shows, up to *)
(* N - F back), whose losslessness is proved in LZSSProof without bounds.  *)
(* In particular the trees never offer a match that lies in the lookahead  *)
(* or that the ring no longer holds.                                       *)
(***************************************************************************)
EXTENDS LZH

CONSTANTS N, F, T, Alphabet, Pre, MaxLen
O == [N |-> N, F |-> F, T |-> T, pre |-> Pre, hdr |-> 0]

VARIABLES e, inp, ended, i, skip, out, win, dr, todo, dist
vars == << e, inp, ended, i, skip, out, win, dr, todo, dist >>

Init == \E s \in UNION { [1..k -> Alphabet] : k \in 0..F } :
          /\ e = [EncInit(O, s) EXCEPT !.ip = 0] /\ inp = s /\ ended = (Len(s) < F)
          /\ i = 0 /\ skip = 0 /\ out = << >> /\ win = WinInit(O) /\ dr = N - F /\ todo = 0 /\ dist = 0

Put(b) == out' = Append(out, b) /\ win' = [win EXCEPT ![dr] = b] /\ dr' = (dr + 1) % N
PutToken ==
    /\ skip = 0 /\ todo = 0 /\ e.len > 0
    /\ LET tk == Token(e, O) IN
       /\ skip' = tk.n
       /\ IF tk.sym < 256 THEN Put(tk.sym) /\ UNCHANGED << todo, dist >>
          ELSE todo' = CopyLen(O, tk.sym) /\ dist' = tk.off + 1 /\ UNCHANGED << out, win, dr >>
    /\ UNCHANGED << e, inp, ended, i >>
Copy == /\ todo > 0 /\ Put(win[(dr + N - dist) % N]) /\ todo' = todo - 1
        /\ UNCHANGED << e, inp, ended, i, skip, dist >>
Slide(c) == /\ skip > 0 /\ ~ended /\ Len(inp) < MaxLen
            /\ e' = [SlideIn(e, O, c) EXCEPT !.ip = 0] /\ inp' = Append(inp, c)
            /\ i' = i + 1 /\ skip' = skip - 1
            /\ UNCHANGED << ended, out, win, dr, todo, dist >>
Drain == /\ skip > 0 /\ e' = SlideOut(e, O) /\ ended' = TRUE /\ i' = i + 1 /\ skip' = skip - 1
         /\ UNCHANGED << inp, out, win, dr, todo, dist >>
Next == PutToken \/ Copy \/ Drain \/ \E c \in Alphabet : Slide(c)
Spec == Init /\ [][Next]_vars

Abs == INSTANCE LZSSAbs WITH Sym <- Alphabet \cup {Pre, 0}, Zero <- 0,
                             buf <- [x \in 0..(N - 1) |-> e.t.buf[x]], er <- e.r
Refines == Abs!Spec
Lossless == Abs!Lossless
\* a step is possible as long as something is left
Live == e.len > 0 \/ todo > 0 => ENABLED Next
Count == e.len = Abs!Left
=============================================================================
