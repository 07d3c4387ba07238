------------------------------ MODULE CliModel ------------------------------
(***************************************************************************)
(* A user at the command line (module Cli), with a library whose outcomes  *)
(* are symbolic: contents are terms.  Checked here: the laws of Cli imply  *)
(* the guarantees of C18 over all histories; and histories are generated   *)
(* for the real program.                                                   *)
(*                                                                         *)
(* Contents (kinds of data, made by the user or by the program):           *)
(*   raw k     data for compressing     comp m    compressed by method m   *)
(*   tdn, tda  TD0 images, normal and advanced    bad k    refused kinds   *)
(*   junk      whatever the expansion of something else may give           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NFiles,     \* files in the directory
          Length,     \* invocations and other actions in a history
          Kinds,      \* kinds of data the user makes up
          Answers, Show

Methods == {"lzw", "lzss_huff", "lzhuf-port", "td0"}
AllMethods == Methods \cup {"zip"}
Files == 1..NFiles
None == "none"

VARIABLES dir, h, last
vars == << dir, h, last >>

\* what the library does with a kind of content: kind of the result, "err" or "refuse"
Lib(op, m, k) ==
    IF m = "td0"
    THEN IF op = "C" THEN (IF k \in {"tdn1", "tdn2"} THEN "tda" ELSE IF k = "tdbig" THEN "refuse" ELSE "refuse")
                     ELSE (IF k \in {"tda", "tda1", "tda2"} THEN "tdn1" ELSE "refuse")
    ELSE IF op = "C" THEN "c." \o m
    ELSE IF k = "c." \o m \/ (k \in {"c.lzss_huff", "c.lzhuf-port"} /\ m \in {"lzss_huff", "lzhuf-port"}) THEN "text"
    ELSE "junk"

Proceeds(out, ans) == out # 0 /\ (dir[out] = None \/ ans \in {"y", "Y"})

Init == dir = [i \in Files |-> None] /\ h = << >> /\ last = [t |-> "start"]

Make(i, k) == /\ dir' = [dir EXCEPT ![i] = k]
              /\ h' = Append(h, [a |-> "make", i |-> i, k |-> k])
              /\ last' = [t |-> "make"]
Remove(i) == /\ dir[i] # None
             /\ dir' = [dir EXCEPT ![i] = None]
             /\ h' = Append(h, [a |-> "remove", i |-> i])
             /\ last' = [t |-> "remove"]

Invoke(op, m, in, out, ans) ==
    LET p == Proceeds(out, ans) /\ m \in Methods
        r == IF dir[in] = None THEN "refuse" ELSE Lib(op, m, dir[in])
    IN  /\ h' = Append(h, [a |-> "run", op |-> op, m |-> m, in |-> in, out |-> out, ans |-> ans])
        /\ IF ~p THEN UNCHANGED dir
           ELSE \/ /\ r \notin {"refuse", "junk"}
                   /\ dir' = [dir EXCEPT ![out] = r]
                \/ r = "refuse" /\ UNCHANGED dir
                \/ r = "refuse" /\ dir[out] = None /\ dir' = [dir EXCEPT ![out] = "empty"]
                \/ r = "junk" /\ dir' = [dir EXCEPT ![out] = "junk"]
        /\ last' = [t |-> "run", in |-> in, out |-> out, ans |-> ans, before |-> dir, r |-> r, m |-> m]

Ops == {"C", "X"}
Next == \/ /\ Len(h) < Length
           /\ \/ \E i \in Files, k \in Kinds : Make(i, k)
              \/ \E i \in Files : Remove(i)
              \/ \E op \in Ops, m \in AllMethods, in \in Files, out \in Files \cup {0}, ans \in Answers :
                    in # out /\ Invoke(op, m, in, out, ans)
        \/ /\ Len(h) = Length /\ Show
           /\ PrintT("VEC " \o ToJson([h |-> h]))
           /\ h' = Append(h, [a |-> "end"]) /\ UNCHANGED << dir, last >>
Spec == Init /\ [][Next]_vars

View == << dir, last >>         \* (the history is for the printout only)

(* The guarantees *)
OnlyOutput == last.t = "run" => \A i \in Files : i # last.out => dir[i] = last.before[i]
NoConsent  == (last.t = "run" /\ last.out # 0) =>
                (last.before[last.out] # None /\ last.ans \notin {"y", "Y"} => dir = last.before)
Refused    == (last.t = "run" /\ last.out # 0) =>
                (last.r = "refuse" /\ last.before[last.out] # None => dir = last.before)
Faithful   == (last.t = "run" /\ last.out # 0 /\ last.m \in Methods /\ last.r \notin {"refuse", "junk"}) =>
                (last.before[last.out] = None \/ last.ans \in {"y", "Y"} => dir[last.out] = last.r)
=============================================================================
