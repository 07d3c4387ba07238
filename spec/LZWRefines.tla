----------------------------- MODULE LZWRefines -----------------------------
(***************************************************************************)
(* LZWModel (tables with codes, chunks of a given size, greedy parse)      *)
(* refines LZWAbs (any parse, any chunks), whose losslessness is proved in *)
(* LZWProof without bounds.                                                *)
(***************************************************************************)
EXTENDS LZWModel

Strings(t) == [c \in 0..MaxCode(o) |-> IF t.sym[c] = NoCode THEN << >> ELSE Str(t, c)]
Abs == INSTANCE LZWAbs WITH ms <- o.maxsym, top <- MaxCode(o), sp <- {o.clear, o.stop} \ {NoCode},
                            tab <- Strings(d), next <- d.next, dtab <- Strings(dd), dnext <- dd.next
Refines == Abs!Spec
=============================================================================
