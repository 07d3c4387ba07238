------------------------------- MODULE CliAll -------------------------------
(***************************************************************************)
(* Every single invocation on every pair of an input and an output of the  *)
(* kinds of CliModel, with every answer.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS InKinds, OutKinds, Answers
VARIABLE v
All == [op : {"C", "X"}, m : {"lzw", "lzss_huff", "lzhuf-port", "td0", "zip"},
        in : InKinds, out : OutKinds, ans : Answers]
\* (the answer matters only if there is something to overwrite)
Init == v \in {a \in All : a.out = "none" => a.ans = "eof"}
Next == /\ v.op # "done"
        /\ PrintT("VEC " \o ToJson(v))
        /\ v' = [op |-> "done"]
Spec == Init /\ [][Next]_v
=============================================================================
