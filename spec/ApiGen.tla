------------------------------- MODULE ApiGen -------------------------------
(***************************************************************************)
(* A user of the library (module Api): makes up data, compresses it with   *)
(* one of several codecs, expands it, damages compressed data, and does so *)
(* in any order, through any kind of object, at any offsets, over objects  *)
(* with old contents.  Behaviours are generated by simulation, performed   *)
(* with the real library, and the recorded calls validated against Api.    *)
(* What a value is stays abstract here, except for what it came from.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

Length == 24                  \* calls in a history
Codecs == 1..4
Ios == {"full", "one", "rand", "intr", "cursor", "file", "slice"}

VARIABLES vals,     \* what each value is: raw; compressed from value of by codec c; damaged; junk
          h         \* the history, printed at the end
vars == << vals, h >>

Raw  == {v \in 1..Len(vals) : vals[v].t = "raw"}
Comp == {v \in 1..Len(vals) : vals[v].t \in {"comp", "dam"}}

Init == vals = << >> /\ h = << >>

Log(e) == h' = Append(h, e)
Fresh == Len(vals) + 1
\* (RandomElement keeps the number of successors small; h makes it a matter of the state)
Pick(S) == RandomElement(IF Len(h) > 1000 THEN {} ELSE S)
Obj == [io |-> Pick(Ios), ino |-> Pick(0..2), outo |-> Pick(0..2), pre |-> Pick(0..1)]

New == /\ vals' = Append(vals, [t |-> "raw", of |-> 0, c |-> 0])
       /\ Log([a |-> "new", v |-> Fresh])

Compress(c, v) ==
    /\ vals' = Append(vals, [t |-> "comp", of |-> v, c |-> c])
    /\ Log([a |-> "C", c |-> c, of |-> v, v |-> Fresh, ref |-> 0] @@ Obj)

\* expanding compressed data gives the original; damaged data, nobody knows
Expand(v) ==
    LET x == vals[v] IN
    /\ vals' = Append(vals, IF x.t = "comp" THEN [t |-> "raw", of |-> x.of, c |-> 0] ELSE [t |-> "junk", of |-> v, c |-> 0])
    /\ Log([a |-> "X", c |-> x.c, of |-> v, v |-> Fresh, ref |-> IF x.t = "comp" THEN x.of ELSE 0] @@ Obj)

Damage(v, how) ==
    /\ vals[v].t = "comp"
    /\ vals' = Append(vals, [t |-> "dam", of |-> v, c |-> vals[v].c])
    /\ Log([a |-> how, of |-> v, v |-> Fresh])

Next == \/ /\ Len(h) < Length
           /\ \/ New
              \/ \E c \in Codecs, v \in Raw : Compress(c, v)
              \/ \E v \in Comp : Expand(v)
              \/ \E v \in Comp, how \in {"cut", "mut"} : Damage(v, how)
        \/ /\ Len(h) = Length
           /\ PrintT("VEC " \o ToJson([h |-> h]))
           /\ h' = Append(h, [a |-> "end"]) /\ UNCHANGED vals
Spec == Init /\ [][Next]_vars

\* a chain of codings leads back to made up data
WellFounded == \A v \in 1..Len(vals) : vals[v].of < v
=============================================================================
