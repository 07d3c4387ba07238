------------------------------- MODULE ApiMC -------------------------------
(***************************************************************************)
(* What the laws of module Api amount to.  A tiny library (two codecs of   *)
(* one format, a few values) answers calls in any way at all.  The laws    *)
(* accept a history if and only if functions                               *)
(*    Comp : Value -> Value  and  Exp : Codec \X Value -> Value or error   *)
(* with Exp(m, Comp(x)) = x explain every call of it (the codecs may       *)
(* differ in what they make of data nobody compressed):  the laws are      *)
(* neither too weak nor too strong.                                        *)
(***************************************************************************)
EXTENDS Api

CONSTANTS NVal,        \* values 1..NVal occur in calls
          Codecs,      \* names of codecs of one format
          MaxCalls

VARIABLES hist,        \* set of calls << codec, op, x, y >>, y = 0: an error
          K,           \* the knowledge of module Api
          quiet        \* no law broken so far
vars == << hist, K, quiet >>

Val == 1..NVal
Fam(m) == IF m = "port" THEN "port" ELSE "lzss"

\* the recorded event of a call; every value is ten bytes long
Event(m, op, x, y) ==
    [fam |-> Fam(m), hdr |-> 1, F |-> 60, w |-> 12, op |-> op, m |-> m, io |-> "full", x |-> x, xl |-> 10,
     r |-> IF y = 0 THEN "err" ELSE "ok", y |-> y, yl |-> IF y = 0 THEN 0 ELSE 10,
     is |-> 10, os |-> IF y = 0 THEN 0 ELSE 10, ino |-> 0, outo |-> 0, prel |-> 0, tot |-> 10,
     before |-> 1, after |-> 1, src |-> 1, un |-> 1, ref |-> 0, refl |-> 0, lcp |-> 0, full |-> 0,
     len |-> << 0, 10 >>, lim |-> << 0, 0 >>, setlim |-> 0, hl |-> 0 - 1, virt |-> 0, hw |-> 0, read |-> 10,
     fail |-> 0, fired |-> 0, run |-> 0, h |-> << >>, g |-> << >>, bx |-> 0, by |-> 0]

Init == hist = {} /\ K = Nothing /\ quiet = TRUE
Call(m, op, x, y) ==
    LET e == Event(m, op, x, y) IN
    /\ hist' = hist \cup {<< m, op, x, y >>}
    /\ quiet' = (quiet /\ Violations(e, K) = {})
    /\ K' = Learn(e, K)
\* (a history that has been rejected need not go on)
Next == /\ quiet /\ Cardinality(hist) < MaxCalls
        /\ \E m \in Codecs, op \in {"C", "X"}, x \in Val, y \in 0..NVal : Call(m, op, x, y)
Spec == Init /\ [][Next]_vars

\* outputs of compressions not called for may be anything else: NVal + x
Explains(comp, exp) ==
    /\ \A m \in Codecs, x \in Val : comp[x] \in Val => exp[m][comp[x]] = x
    /\ \A c \in hist : IF c[2] = "C" THEN comp[c[3]] = c[4] ELSE exp[c[1]][c[3]] = c[4]
Comps == {f \in [Val -> 1..(2 * NVal)] : \A x \in Val : f[x] \in Val \cup {NVal + x}}
Explained == \E comp \in Comps, exp \in [Codecs -> [Val -> 0..NVal]] : Explains(comp, exp)

Exact == quiet <=> Explained

(***************************************************************************)
(* Whatever the laws accept they no longer accept with one field wrong.    *)
(***************************************************************************)
Wrong(e) ==
    {[e EXCEPT !.r = "panic"], [e EXCEPT !.before = 0], [e EXCEPT !.after = 0], [e EXCEPT !.src = 0],
     [e EXCEPT !.fired = 1, !.r = "ok"], [e EXCEPT !.fired = 1, !.r = "panic"], [e EXCEPT !.run = 1],
     [e EXCEPT !.r = "big"], [e EXCEPT !.setlim = 1, !.lim = << 0, 9 >>], [e EXCEPT !.prel = 5, !.tot = 11]}
    \cup IF e.r # "ok" THEN {} ELSE {[e EXCEPT !.os = 11], [e EXCEPT !.yl = 9], [e EXCEPT !.prel = 20, !.tot = 10]}
    \cup IF e.r # "ok" \/ e.fam = "port" THEN {} ELSE {[e EXCEPT !.is = 9]}
Sharp == \A m \in Codecs, op \in {"C", "X"}, x \in Val, y \in 0..NVal :
            LET e == Event(m, op, x, y) IN
            \A f \in Wrong(e) :
               \/ Violations(f, K) # {}
               \* decoding with the port has no limit; an error writes nothing
               \/ m = "port" /\ op = "X" /\ f.setlim = 1
               \/ f.prel = 5 /\ y = 0
               \* a known error may be reported for what could not be done anyway
               \/ f.r = "big" /\ f.setlim = 1
=============================================================================
