------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Trace validation for the command line.  Each line of the trace file is  *)
(* one event of one history (s): the directory is set up by the user       *)
(* (a = "set"), or the program was run (a = "run") with the result found.  *)
(* The state carried along is the directory as the specification has it,   *)
(* so a file that changes between invocations is noticed as well.          *)
(***************************************************************************)
EXTENDS Cli, Api, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, d, nbad
vars == << i, d, nbad >>
E == Events[i]

\* inputs the library has to refuse before it writes anything
CliTooLarge(m, op, n) == CASE m = "td0" -> Less(<< 45, 50892 >>, n)
                          [] m = "lzhuf-port" -> FALSE
                          [] OTHER -> Less(<< 16383, 65535 >>, n)
Refuse(e) == \/ e.m = "td0" /\ HdrClass(e.op, e.h) # "valid"
             \/ CliTooLarge(e.m, e.op, e.len)
Inv(e) == [op |-> e.op, m |-> e.m, in |-> e.in, out |-> e.out, ans |-> e.ans]
L(e) == [r |-> e.lib, y |-> e.y, refuse |-> Refuse(e)]

Init == i = 1 /\ d = << >> /\ nbad = 0
Set == /\ i <= Len(Events) /\ E.a = "set"
       /\ d' = E.dir /\ i' = i + 1 /\ UNCHANGED nbad
Run == /\ i <= Len(Events) /\ E.a = "run"
       /\ LET ok == E.exit = 0
              good == E.before = d /\ E.extra = 0 /\ Legal(Inv(E), L(E), d, ok, E.dir)
          IN  /\ IF good THEN TRUE ELSE PrintT(<< "REJECT", E.id,
                      IF E.before # d THEN "files changed meanwhile"
                      ELSE IF E.extra # 0 THEN "other files appeared" ELSE Why(Inv(E), L(E), d, ok, E.dir),
                      "exit", E.exit, d, E.dir, E.lib, E.y >>)
              /\ nbad' = IF good THEN nbad ELSE nbad + 1
       /\ d' = E.dir /\ i' = i + 1
Finish == /\ i = Len(Events) + 1 /\ PrintT(<< "DONE", Len(Events), nbad >>)
          /\ i' = i + 1 /\ UNCHANGED << d, nbad >>
Next == Set \/ Run \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
