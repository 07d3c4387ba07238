------------------------------- MODULE LZSSMC -------------------------------
(***************************************************************************)
(* The LZSS stage of coder and decoder in lockstep (tokens passed on       *)
(* directly), for input of any length over a small alphabet and a small    *)
(* window.  Actions: the coder puts out a token, which the decoder         *)
(* applies; the coder slides on by one byte, new or (input exhausted) not. *)
(***************************************************************************)
EXTENDS LZH, Json

CONSTANTS N, F, T, Alphabet, Pre,
          Hist,     \* keep the input (hidden by VIEW)
          Emit      \* print a vector (options, input, exact stream) whenever an input ends
ASSUME Alphabet \subseteq 0..255
O == [N |-> N, F |-> F, T |-> T, pre |-> Pre, hdr |-> 0]

VARIABLES e,        \* coder (its input counter frozen at 0: the past does not matter)
          ended,    \* input exhausted
          todo,     \* bytes the coder still has to slide
          win, dr,  \* decoder
          good,     \* the last token denoted the right bytes
          inp       \* history: the input
vars == << e, ended, todo, win, dr, good, inp >>
View == << e, ended, todo, win, dr, good >>
H(x) == IF Hist THEN x ELSE << >>

Starts == UNION { [1..k -> Alphabet] : k \in 1..F }
Init == \E s \in Starts :
          /\ e = [EncInit(O, s) EXCEPT !.ip = 0]
          /\ ended = (Len(s) < F)
          /\ todo = 0 /\ win = WinInit(O) /\ dr = N - F /\ good = TRUE
          /\ inp = H(s)

\* the n bytes to be coded, as they lie in the coder's buffer
Ahead(n) == [i \in 1..n |-> e.t.buf[(e.r + i - 1) % N]]

PutToken ==
    /\ todo = 0 /\ e.len > 0
    /\ LET tk == Token(e, O)
           w  == ApplyTok(O, win, dr, tk.sym, IF tk.off < 0 THEN 0 ELSE tk.off)
       IN  /\ good' = (w.out = Ahead(tk.n) /\ tk.sym < NSym(O) /\ tk.off < 4096)
           /\ win' = TLCEval(w.win) /\ dr' = w.r /\ todo' = tk.n
    /\ UNCHANGED << e, ended, inp >>

Slide(c) ==
    /\ todo > 0 /\ ~ended
    /\ e' = [SlideIn(e, O, c) EXCEPT !.ip = 0]
    /\ todo' = todo - 1 /\ inp' = H(Append(inp, c))
    /\ UNCHANGED << ended, win, dr, good >>
Drain ==
    /\ todo > 0
    /\ e' = SlideOut(e, O) /\ ended' = TRUE
    /\ todo' = todo - 1
    /\ IF Emit /\ e'.len = 0 THEN PrintT("VEC " \o ToJson([o |-> O, in |-> inp, out |-> Encode(O, inp)])) ELSE TRUE
    /\ UNCHANGED << win, dr, good, inp >>

Next == PutToken \/ Drain \/ \E c \in Alphabet : Slide(c)
Spec == Init /\ [][Next]_vars

(* Every token denotes the bytes it was made for. *)
Decodable == good
\* between tokens, both windows hold the same past
SameWindow == todo = 0 => /\ dr = e.r
                          /\ \A k \in 1..(N - F) : win[(dr - k + N) % N] = e.t.buf[(e.r - k + N) % N]
\* the copy of the first cells is up to date once they have been written
TreeOK ==
    LET t == e.t IN
    /\ \A x \in 0..(N - 1) :
         /\ t.L[x] # N => t.D[t.L[x]] = x
         /\ t.R[x] # N => t.D[t.R[x]] = x
         /\ t.D[x] # N => t.D[x] \in 0..(N + 256) /\ t.D[x] # x
                          /\ (t.D[x] < N => t.L[t.D[x]] = x \/ t.R[t.D[x]] = x)
                          /\ (t.D[x] > N => t.R[t.D[x]] = x /\ t.buf[x] = t.D[x] - N - 1)
    /\ \A c \in 0..255 : t.R[N + 1 + c] # N => t.D[t.R[N + 1 + c]] = N + 1 + c
\* no cycles: from every indexed position one gets to a root
Rooted ==
    LET t == e.t
        RECURSIVE Up(_, _)
        Up(x, n) == IF x > N THEN TRUE ELSE IF n = 0 \/ x = N THEN FALSE ELSE Up(t.D[x], n - 1)
    IN  \A x \in 0..(N - 1) : t.D[x] # N => Up(x, N + 1)
\* a match refers to the past, not to the lookahead's own free run
MatchOK == e.ml > T => e.mo \in 0..(N - 1) /\ e.ml <= F
=============================================================================
