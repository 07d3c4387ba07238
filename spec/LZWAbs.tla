------------------------------ MODULE LZWAbs --------------------------------
(***************************************************************************)
(* LZW without bounds: any code width, any alphabet, any special codes,    *)
(* any input, and a coder that may parse its input as it likes (greedily   *)
(* or not) and may start a fresh chunk whenever it likes.                  *)
(*  - LZWProof proves, with TLAPS, that the decoder, which learns each     *)
(*    string one code late, never meets a code it cannot decode, and that  *)
(*    what it puts out followed by the pending match is always the input;  *)
(*  - LZWRefines checks, with TLC, that LZWModel, from which the           *)
(*    implementation is driven, refines this module.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES ms, top, sp,         \* greatest symbol, greatest code, codes without a string
          tab, next, m,        \* coder: strings, next code, code of the current match or -1
          dtab, dnext, dp,     \* decoder: strings, next code, previous code or -1
          phase, inp, outp
opts == << ms, top, sp >>
vars == << ms, top, sp, tab, next, m, dtab, dnext, dp, phase, inp, outp >>

Sym == 0..ms
Code == 0..top
\* e is the first code after c that a new string may get
IsNext(c, e) == /\ e \in Nat /\ e > c /\ e > ms /\ e \notin sp
                /\ \A k \in (ms + 1)..(e - 1) : k > c => k \in sp
Lits == [c \in Code |-> IF c <= ms THEN << c >> ELSE << >>]
Def(nx, c) == c \in Code /\ (c <= ms \/ (c < nx /\ c \notin sp))

Init == /\ ms \in Nat /\ top \in Nat /\ ms <= top
        /\ sp \subseteq Int /\ \A c \in Sym : c \notin sp
        /\ tab = Lits /\ IsNext(-1, next) /\ m = -1
        /\ dtab = Lits /\ dnext = next /\ dp = -1
        /\ phase = "run" /\ inp = << >> /\ outp = << >>

Extend(s, e) ==
    /\ phase = "run" /\ s \in Sym /\ e \in Code
    /\ IF m = -1 THEN e = s ELSE Def(next, e) /\ tab[e] = Append(tab[m], s)
    /\ m' = e /\ inp' = Append(inp, s)
    /\ UNCHANGED << ms, top, sp, tab, next, dtab, dnext, dp, phase, outp >>

\* the decoder gets the code m
Ok  == Def(dnext, m) \/ (dp # -1 /\ dnext <= top /\ m = dnext)
Out == IF Def(dnext, m) THEN dtab[m] ELSE Append(dtab[dp], Head(dtab[dp]))

Keep(s) ==
    /\ phase = "run" /\ s \in Sym /\ m # -1
    /\ phase' = IF Ok THEN "run" ELSE "bad"
    /\ outp' = outp \o Out
    /\ IF next <= top THEN tab' = [tab EXCEPT ![next] = Append(tab[m], s)] /\ IsNext(next, next')
                      ELSE tab' = tab /\ next' = next
    /\ IF dp # -1 /\ dnext <= top
       THEN dtab' = [dtab EXCEPT ![dnext] = Append(dtab[dp], Head(Out))] /\ IsNext(dnext, dnext')
       ELSE dtab' = dtab /\ dnext' = dnext
    /\ dp' = m /\ m' = s /\ inp' = Append(inp, s)
    /\ UNCHANGED opts

Close(s) ==
    /\ phase = "run" /\ s \in Sym /\ m # -1
    /\ phase' = IF Ok THEN "run" ELSE "bad"
    /\ outp' = outp \o Out
    /\ tab' = Lits /\ dtab' = Lits /\ IsNext(-1, next') /\ dnext' = next' /\ dp' = -1
    /\ m' = s /\ inp' = Append(inp, s)
    /\ UNCHANGED opts

Finish ==
    /\ phase = "run"
    /\ phase' = IF m = -1 \/ Ok THEN "done" ELSE "bad"
    /\ outp' = IF m = -1 THEN outp ELSE outp \o Out
    /\ UNCHANGED << ms, top, sp, tab, next, m, dtab, dnext, dp, inp >>

Next == (\E s \in Sym : (\E e \in Code : Extend(s, e)) \/ Keep(s) \/ Close(s)) \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Pending == IF m = -1 THEN << >> ELSE tab[m]
Lossless == /\ phase # "bad"
            /\ phase = "run"  => outp \o Pending = inp
            /\ phase = "done" => outp = inp
=============================================================================
