------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Validation of recorded call histories against module Api: one action    *)
(* per recorded call; sessions (field s) share no knowledge.               *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils

Calls == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, sess, K, nbad
vars == << l, sess, K, nbad >>
View == l

Init == l = 1 /\ sess = 0 /\ K = Nothing /\ nbad = 0

Know(e) == IF e.s = sess THEN K ELSE Nothing

Call == /\ l <= Len(Calls)
        /\ LET e == Calls[l]
               k == Know(e)
               v == Violations(e, k)
           IN  /\ K' = TLCEval(Learn(e, k)) /\ sess' = e.s
               /\ IF v = {} THEN nbad' = nbad
                  ELSE PrintT(<< "REJECT", e.id, v >>) /\ nbad' = nbad + 1
        /\ l' = l + 1

End == /\ l = Len(Calls) + 1 /\ l' = l + 1
       /\ PrintT(<< "DONE", Len(Calls), nbad >>)
       /\ UNCHANGED << sess, K, nbad >>

Next == Call \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
