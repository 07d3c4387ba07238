-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line: invocations                                           *)
(*     retrocompressor compress|expand -m method -i in -o out              *)
(* on a directory of files.  The state is the directory, a function from   *)
(* the files' numbers to contents (equal contents, equal number; None: no  *)
(* such file).  An invocation reads at most one line from its user.        *)
(*                                                                         *)
(* What the library makes of a content is a parameter of this module       *)
(* (lib, y: outcome class and content; modules LZW, LZH, Api are about     *)
(* these), and so is the question whether the input is one to be refused.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

None  == 0
Empty == 1                       \* the content of length zero
Methods == {"lzw", "lzss_huff", "lzhuf-port", "td0"}
Consent == {"y", "Y"}
Codec(m) == CASE m = "lzw" -> "lzw:std" [] m = "lzss_huff" -> "lzss:std" [] m = "lzhuf-port" -> "port" [] OTHER -> m

(***************************************************************************)
(* An invocation a = [op, m, in, out, ans]; out = 0 is a path that cannot  *)
(* be created.  L = [r, y, refuse]: what the library says of the input.    *)
(* The set of legal results [ok, dir], for a directory d:                  *)
(***************************************************************************)
Unchanged(d) == { [ok |-> FALSE, dir |-> d], [ok |-> TRUE, dir |-> d] }

\* nothing happens, except that a new output file may have been created, empty
Refusal(a, d) ==
    { [ok |-> FALSE, dir |-> d] }
    \cup (IF a.out # 0 /\ d[a.out] = None THEN { [ok |-> FALSE, dir |-> [d EXCEPT ![a.out] = Empty]] } ELSE {})

Declined(a, d) == a.out # 0 /\ d[a.out] # None /\ a.ans \notin Consent

\* is [ok, dir] a legal result of a on d?
Legal(a, L, d, ok, dir) ==
    IF a.m \notin Methods
    THEN \/ [ok |-> ok, dir |-> dir] \in Refusal(a, d)
         \/ Declined(a, d) /\ dir = d
    ELSE IF Declined(a, d) THEN dir = d
    ELSE IF a.out = 0 THEN ~ok /\ dir = d
    ELSE IF d[a.in] = None \/ L.refuse THEN [ok |-> ok, dir |-> dir] \in Refusal(a, d)
    ELSE IF L.r = "ok" THEN ok /\ dir = [d EXCEPT ![a.out] = L.y]
    ELSE \* damaged data, found out on the way: the output is in no certain state
         ~ok /\ \A i \in DOMAIN d \ {a.out} : dir[i] = d[i]

(***************************************************************************)
(* What went wrong, for the report.                                        *)
(***************************************************************************)
Why(a, L, d, ok, dir) ==
    IF \E i \in DOMAIN d \ {a.out} : dir[i] # d[i]
    THEN (IF dir[a.in] # d[a.in] THEN "input changed" ELSE "another file changed")
    ELSE IF Declined(a, d) THEN "overwritten without consent"
    ELSE IF a.m \notin Methods THEN "unknown method"
    ELSE IF a.out = 0 THEN "success without an output"
    ELSE IF d[a.in] = None THEN "missing input"
    ELSE IF L.refuse THEN "input to be refused"
    ELSE IF L.r = "ok" THEN (IF ~ok THEN "exit code of a success" ELSE "output is not the library's")
    ELSE "exit code of a failure"
=============================================================================
