------------------------------ MODULE LZWProof ------------------------------
(***************************************************************************)
(* Proof (TLAPS, all obligations discharged by its SMT backend) that LZWAbs*)
(* loses nothing, for every width, alphabet, special codes, input, parse   *)
(* and placement of chunk ends.                                            *)
(***************************************************************************)
EXTENDS LZWAbs, TLAPS, SequenceTheorems

Types == /\ ms \in Nat /\ top \in Nat /\ ms <= top
         /\ sp \subseteq Int /\ (\A c \in Sym : c \notin sp)
         /\ next \in Nat /\ dnext \in Nat
         /\ tab \in [Code -> Seq(Sym)] /\ dtab \in [Code -> Seq(Sym)]
         /\ m \in Code \cup {-1} /\ dp \in Code \cup {-1}
         /\ inp \in Seq(Sym) /\ outp \in Seq(Sym)
         /\ phase \in {"run", "done", "bad"}
Agree == /\ next > ms /\ next \notin sp /\ dnext > ms /\ dnext \notin sp
         /\ \A c \in Code : Def(next, c) => tab[c] # << >>
         /\ \A c \in Code : Def(dnext, c) => dtab[c] = tab[c]
         /\ \A c \in Sym : tab[c] = << c >>
         /\ dp = -1 => dnext = next
         /\ dp # -1 => m # -1 /\ Def(dnext, dp)
         /\ dp # -1 /\ dnext <= top => IsNext(dnext, next) /\ tab[dnext] = Append(tab[dp], Head(tab[m]))
         /\ dp # -1 /\ dnext > top => next = dnext
         /\ m # -1 => Def(next, m)
Inv == Types /\ Lossless /\ (phase = "run" => Agree)

LEMMA NextUnique == ASSUME Types, NEW c \in Int, NEW e, NEW f, IsNext(c, e), IsNext(c, f) PROVE e = f
BY DEF Types, IsNext

LEMMA Between == ASSUME Types, NEW a \in Nat, NEW e \in Nat, IsNext(a, e), NEW c \in Code, Def(e, c)
                 PROVE  Def(a, c) \/ c = a
<1> SUFFICES ASSUME c > ms, c \notin sp, c < e, c > a PROVE FALSE
  BY DEF Types, Def, Code
<1> QED BY DEF Types, IsNext, Code

LEMMA AppendSeq == ASSUME NEW S, NEW w \in Seq(S), NEW s \in S
                   PROVE  Append(w, s) \in Seq(S) /\ Append(w, s) # << >>
BY AppendProperties, EmptySeq

LEMMA HeadOfAppend == ASSUME NEW S, NEW w \in Seq(S), NEW s \in S, w # << >>
                      PROVE  Head(Append(w, s)) = Head(w) /\ Head(w) \in S
BY AppendProperties, EmptySeq, HeadTailProperties

LEMMA ConcatAppend == ASSUME NEW S, NEW v \in Seq(S), NEW w \in Seq(S), NEW s \in S
                      PROVE  v \o Append(w, s) = Append(v \o w, s)
BY AppendIsConcat, ConcatAssociative, ConcatProperties

LEMMA LitsSeq == ASSUME ms \in Nat, top \in Nat PROVE Lits \in [Code -> Seq(Sym)]
BY DEF Lits, Code, Sym

LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv
  OBVIOUS
<1>1. Lits \in [Code -> Seq(Sym)]
  BY DEF Init, Lits, Code, Sym
<1>2. Types
  BY <1>1 DEF Init, Types, IsNext, Code, Sym
<1>3. Lossless
  BY DEF Init, Lossless, Pending
<1>4. Agree
  BY DEF Init, Agree, IsNext, Def, Lits, Code, Sym
<1> QED BY <1>2, <1>3, <1>4 DEF Inv

\* what the decoder makes of the code put out
LEMMA Decodes == ASSUME Inv, phase = "run", m # -1
                 PROVE  Ok /\ Out = tab[m] /\ tab[m] \in Seq(Sym) /\ tab[m] # << >>
<1>1. CASE Def(dnext, m)
  BY <1>1 DEF Inv, Types, Agree, Ok, Out, Def
<1>2. CASE ~Def(dnext, m)
  <2>1. dp # -1 /\ dnext <= top /\ m = dnext
    BY <1>2 DEF Inv, Types, Agree, Def, IsNext, Code
  <2>2. Def(dnext, dp) /\ dp \in Code /\ m \in Code /\ dtab[dp] = tab[dp]
    BY <2>1 DEF Inv, Types, Agree, Def
  <2>3. Def(next, dp)
    <3>1. IsNext(dnext, next) /\ dnext \in Nat /\ ms \in Nat /\ next \in Nat /\ top \in Nat
      BY <2>1 DEF Inv, Types, Agree
    <3>2. dnext < next
      BY <3>1 DEF IsNext
    <3> QED BY <2>2, <3>1, <3>2 DEF Def, Code
  <2>4. tab[dp] \in Seq(Sym) /\ tab[dp] # << >> /\ tab[m] \in Seq(Sym) /\ tab[m] # << >>
    BY <2>2, <2>3 DEF Inv, Types, Agree
  <2>5. tab[m] = Append(tab[dp], Head(tab[m]))
    BY <2>1 DEF Inv, Agree
  <2>6. Head(tab[m]) \in Sym
    BY <2>4, HeadTailProperties
  <2>7. Head(tab[m]) = Head(tab[dp])
    BY <2>4, <2>5, <2>6, HeadOfAppend
  <2> QED BY <1>2, <2>1, <2>2, <2>4, <2>5, <2>7 DEF Ok, Out
<1> QED BY <1>1, <1>2

LEMMA ExtendInv == ASSUME Inv, NEW s \in Sym, NEW e \in Code, Extend(s, e) PROVE Inv'
<1>1. Types'
  BY AppendSeq DEF Inv, Types, Extend, Sym, Code
<1>2. Def(next, e) /\ tab[e] = Append(Pending, s) /\ Pending \in Seq(Sym)
  <2>1. CASE m = -1
    BY <2>1 DEF Inv, Types, Agree, Extend, Def, Pending, Sym, Code
  <2>2. CASE m # -1
    BY <2>2 DEF Inv, Types, Extend, Pending
  <2> QED BY <2>1, <2>2
<1>3. Lossless'
  <2>1. outp \o tab[e] = Append(outp \o Pending, s)
    BY <1>2, ConcatAppend DEF Inv, Types
  <2>2. e # -1
    BY DEF Inv, Types, Code
  <2> QED BY <2>1, <2>2 DEF Inv, Lossless, Pending, Extend
<1>4. Agree'
  <2>1. dp # -1 => Head(tab[e]) = Head(tab[m])
    BY <1>2, HeadOfAppend DEF Inv, Types, Agree, Extend, Pending
  <2>2. e # -1
    BY DEF Inv, Types, Code
  <2> QED BY <1>2, <2>1, <2>2 DEF Inv, Agree, Extend, Def, IsNext, Code, Sym
<1> QED BY <1>1, <1>3, <1>4 DEF Inv, Extend

LEMMA OutInv == ASSUME Inv, phase = "run", m # -1, NEW s \in Sym
                PROVE  /\ outp \o Out \in Seq(Sym) /\ outp \o Out = inp
                       /\ Append(inp, s) \in Seq(Sym)
                       /\ (outp \o Out) \o << s >> = Append(inp, s)
<1>1. Out = tab[m] /\ tab[m] \in Seq(Sym)
  BY Decodes
<1>2. outp \o Out = inp
  BY <1>1 DEF Inv, Lossless, Pending
<1> QED BY <1>1, <1>2, AppendIsConcat, AppendSeq, ConcatProperties DEF Inv, Types

LEMMA CloseInv == ASSUME Inv, NEW s \in Sym, Close(s) PROVE Inv'
<1>0. Ok /\ phase' = "run"
  BY Decodes DEF Close
<1>1. Lits \in [Code -> Seq(Sym)]
  BY LitsSeq DEF Inv, Types
<1>2. s \in Code /\ s # -1 /\ Lits[s] = << s >>
  BY DEF Inv, Types, Lits, Code, Sym
<1>3. Types'
  <2>1. outp' \in Seq(Sym) /\ inp' \in Seq(Sym)
    BY OutInv DEF Close
  <2>2. next' \in Nat /\ dnext' \in Nat
    BY DEF Close, IsNext
  <2>3. ms' = ms /\ top' = top /\ sp' = sp
    BY DEF Close, opts
  <2>4. m' \in Code /\ dp' = -1 /\ tab' = Lits /\ dtab' = Lits
    BY <1>2 DEF Close
  <2> QED BY <1>0, <1>1, <2>1, <2>2, <2>3, <2>4 DEF Inv, Types, Sym, Code
<1>4. Lossless'
  <2>1. outp' = inp /\ m' = s /\ tab'[s] = << s >> /\ inp' = (outp \o Out) \o << s >> /\ outp' = outp \o Out
    BY <1>2, OutInv DEF Close
  <2>2. outp' \o Pending' = inp'
    BY <1>2, <2>1 DEF Pending
  <2> QED BY <1>0, <2>2 DEF Lossless
<1>5. Agree'
  <2>1. ms' = ms /\ top' = top /\ sp' = sp /\ m' = s /\ dp' = -1 /\ tab' = Lits /\ dtab' = Lits /\ dnext' = next'
    BY DEF Close, opts
  <2>2. next' > ms /\ next' \notin sp /\ next' \in Nat /\ \A k \in (ms + 1)..(next' - 1) : k \in sp
    BY DEF Close, IsNext, Inv, Types
  <2>3. \A c \in Code : Def(next', c) => c <= ms
    BY <2>2 DEF Inv, Types, Def, Code
  <2>4. \A c \in Code : c <= ms => Lits[c] = << c >> /\ Lits[c] # << >>
    BY DEF Lits
  <2>5. \A c \in Sym : Lits[c] = << c >>
    BY <2>4 DEF Inv, Types, Sym, Code
  <2>6. Def(next', s)
    BY <1>2 DEF Def, Sym
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <1>2 DEF Agree, Def, Code, Sym
<1> QED BY <1>3, <1>4, <1>5 DEF Inv

LEMMA KeepInv == ASSUME Inv, NEW s \in Sym, Keep(s) PROVE Inv'
<1>0. Ok /\ phase = "run" /\ phase' = "run" /\ Out = tab[m] /\ tab[m] \in Seq(Sym) /\ tab[m] # << >> /\ m # -1 /\ m \in Code
  BY Decodes DEF Keep, Inv, Types
<1>1. s \in Code /\ s # -1 /\ tab[s] = << s >> /\ s < next /\ s < dnext
  BY <1>0 DEF Inv, Types, Agree, Code, Sym
<1>2. Append(tab[m], s) \in Seq(Sym) /\ Append(tab[m], s) # << >>
  BY <1>0, AppendSeq
<1>3. Head(tab[m]) \in Sym
  BY <1>0, HeadTailProperties
<1>4. tab' \in [Code -> Seq(Sym)] /\ next' \in Nat
  BY <1>0, <1>2 DEF Inv, Types, Keep, IsNext
<1>5. ASSUME dp # -1 PROVE dp \in Code /\ Def(dnext, dp) /\ dtab[dp] = tab[dp] /\ tab[dp] \in Seq(Sym)
  BY <1>0, <1>5 DEF Inv, Types, Agree, Def
<1>6. ASSUME dp # -1, dnext <= top
      PROVE  /\ dtab' = [dtab EXCEPT ![dnext] = tab[dnext]] /\ dnext' = next
             /\ dnext \in Code /\ tab[dnext] \in Seq(Sym)
  <2>1. dtab' = [dtab EXCEPT ![dnext] = Append(tab[dp], Head(tab[m]))]
    BY <1>0, <1>5, <1>6 DEF Keep
  <2>2. tab[dnext] = Append(tab[dp], Head(tab[m])) /\ dnext \in Code
    BY <1>0, <1>6 DEF Inv, Types, Agree, Code
  <2>3. dnext' = next
    BY <1>0, <1>6, NextUnique DEF Inv, Types, Agree, Keep
  <2> QED BY <2>1, <2>2, <2>3 DEF Inv, Types
<1>7. ASSUME ~(dp # -1 /\ dnext <= top) PROVE dtab' = dtab /\ dnext' = next /\ dnext = next
  BY <1>0, <1>7 DEF Inv, Types, Agree, Keep
<1>8. dtab' \in [Code -> Seq(Sym)] /\ dnext' = next
  BY <1>6, <1>7 DEF Inv, Types
<1>9. Types'
  BY <1>0, <1>1, <1>4, <1>8, OutInv DEF Inv, Types, Keep, opts, Sym, Code
<1>10. tab'[s] = << s >>
  BY <1>1 DEF Keep, Inv, Types
<1>11. Lossless'
  BY <1>0, <1>1, <1>10, OutInv DEF Lossless, Pending, Keep
<1>12. \A c \in Code : Def(next, c) => tab'[c] = tab[c]
  BY <1>0 DEF Inv, Types, Agree, Keep, Def, Code
<1>13. \A c \in Code : Def(next, c) => dtab'[c] = tab[c]
  <2>1. CASE dp # -1 /\ dnext <= top
    <3>1. \A c \in Code : Def(next, c) => Def(dnext, c) \/ c = dnext
      BY <1>0, <2>1, Between DEF Inv, Types, Agree
    <3> QED BY <1>0, <1>6, <2>1, <3>1 DEF Inv, Types, Agree
  <2>2. CASE ~(dp # -1 /\ dnext <= top)
    BY <1>0, <1>7, <2>2 DEF Inv, Types, Agree
  <2> QED BY <2>1, <2>2
<1>14. Def(next, m)
  BY <1>0 DEF Inv, Agree
<1>15. Agree'
  <2> USE <1>0, <1>1, <1>8
  <2>1. next' > ms' /\ next' \notin sp' /\ dnext' > ms' /\ dnext' \notin sp'
    BY DEF Inv, Types, Agree, Keep, opts, IsNext
  <2>2. \A c \in Code' : Def(next, c)' => tab'[c] # << >>
    <3> SUFFICES ASSUME NEW c \in Code, Def(next', c) PROVE tab'[c] # << >>
      BY DEF Keep, opts, Def, Code
    <3>1. Def(next, c) \/ (next <= top /\ c = next)
      <4>1. CASE next <= top
        BY <4>1, Between DEF Inv, Types, Keep, IsNext
      <4>2. CASE ~(next <= top)
        BY <4>2 DEF Keep
      <4> QED BY <4>1, <4>2
    <3>2. CASE Def(next, c)
      BY <1>12, <3>2 DEF Inv, Agree
    <3>3. CASE next <= top /\ c = next
      BY <1>2, <3>3 DEF Keep, Inv, Types
    <3> QED BY <3>1, <3>2, <3>3
  <2>3. \A c \in Code' : Def(dnext, c)' => dtab'[c] = tab'[c]
    BY <1>12, <1>13 DEF Keep, opts, Def, Code
  <2>4. \A c \in Sym' : tab'[c] = << c >>
    BY DEF Inv, Types, Agree, Keep, opts, Sym, Code
  <2>5. dp' # -1 /\ m' # -1 /\ Def(dnext, dp)'
    BY <1>14 DEF Keep, opts, Def, Code
  <2>6. ASSUME dnext' <= top' PROVE IsNext(dnext, next)' /\ tab'[dnext'] = Append(tab'[dp'], Head(tab'[m']))
    <3>1. next <= top
      BY <2>6 DEF Keep, opts
    <3>2. tab'[next] = Append(tab[m], s)
      BY <3>1 DEF Keep, Inv, Types, Code
    <3>3. tab'[m] = tab[m]
      BY <1>12, <1>14
    <3>4. Head(<< s >>) = s
      OBVIOUS
    <3>5. IsNext(dnext, next)'
      BY <3>1 DEF Keep, opts, IsNext
    <3> QED BY <3>2, <3>3, <3>4, <3>5, <1>10 DEF Keep
  <2>7. dnext' > top' => next' = dnext'
    BY DEF Keep, opts, Inv, Types
  <2>8. Def(next, m)'
    BY DEF Keep, opts, Def, Inv, Types, Sym, Code
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7, <2>8 DEF Agree
<1> QED BY <1>9, <1>11, <1>15 DEF Inv

LEMMA FinishInv == ASSUME Inv, Finish PROVE Inv'
<1>1. CASE m = -1
  BY <1>1, ConcatEmptySeq DEF Inv, Types, Lossless, Pending, Finish, Sym, Code
<1>2. CASE m # -1
  <2>1. Ok /\ outp \o Out = inp /\ outp \o Out \in Seq(Sym)
    BY <1>2, Decodes, ConcatProperties DEF Inv, Types, Lossless, Pending, Finish
  <2> QED BY <1>2, <2>1 DEF Inv, Types, Lossless, Pending, Finish, Sym, Code
<1> QED BY <1>1, <1>2

THEOREM Always == Spec => []Inv
<1>1. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
    OBVIOUS
  <2>1. CASE UNCHANGED vars
    BY <2>1 DEF Inv, Types, Lossless, Pending, Agree, Def, IsNext, vars, Sym, Code
  <2> QED BY <2>1, ExtendInv, KeepInv, CloseInv, FinishInv DEF Next
<1> QED BY <1>1, InitInv, PTL DEF Spec

THEOREM RoundTrip == Spec => []Lossless
BY Always, PTL DEF Inv
=============================================================================
