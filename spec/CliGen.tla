------------------------------- MODULE CliGen -------------------------------
(***************************************************************************)
(* Behaviours of CliModel for simulation: fewer successors, and more often *)
(* such as make sense, so that chains of conversions come about.           *)
(***************************************************************************)
EXTENDS CliModel

\* (depends on the state, so that TLC does not take it for a constant)
Pick(S) == RandomElement(IF Len(h) > 1000 THEN {} ELSE S)

MethodOf(k) == CASE k = "c.lzw" -> "lzw" [] k = "c.lzss_huff" -> "lzss_huff" [] k = "c.lzhuf-port" -> "lzhuf-port"
                 [] k \in {"tda", "tda1", "tda2", "tdn1", "tdn2", "badcrc", "badsig", "short"} -> "td0" [] OTHER -> Pick(Methods)
OpOf(k) == IF k \in {"c.lzw", "c.lzss_huff", "c.lzhuf-port", "tda", "tda1", "tda2"} THEN "X" ELSE "C"

GNext == \/ Len(h) < 2 /\ Make(Len(h) + 1, Pick(Kinds))
         \/ /\ Len(h) >= 2 /\ Len(h) < Length
            /\ \/ Make(Pick(Files), Pick(Kinds))
               \/ Remove(Pick(Files))
               \/ \E in \in Files, out \in Files :
                    in # out /\ Invoke(Pick(Ops), Pick(AllMethods), in, out, Pick(Answers))
               \/ \E in \in Files, out \in Files :
                    in # out /\ dir[in] # None /\ Invoke(OpOf(dir[in]), MethodOf(dir[in]), in, out, Pick({"y", "Y", "n"}))
               \/ \E in \in Files : Invoke(Pick(Ops), Pick(Methods), in, 0, "eof")
         \/ /\ Len(h) = Length
            /\ PrintT("VEC " \o ToJson([h |-> h]))
            /\ h' = Append(h, [a |-> "end"]) /\ UNCHANGED << dir, last >>
GSpec == Init /\ [][GNext]_vars
=============================================================================
