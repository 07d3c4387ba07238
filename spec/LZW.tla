-------------------------------- MODULE LZW --------------------------------
(***************************************************************************)
(* Fixed-width LZW as pure operators: the string table, the coder's and    *)
(* the decoder's steps.                                                    *)
(*   o = [hb, hd, chunk, maxsym, clear, stop, w, ord]                      *)
(*     hb/hd     chunk header bits (0: none) and divisor                   *)
(*     chunk     codes after which the coder closes a chunk                *)
(*     clear/stop  code values, -1: not used                               *)
(*     w, ord    code width, bit packing order ("msb"/"lsb")               *)
(***************************************************************************)
EXTENDS BitStream, Integers, TLC

MaxCode(o)  == P2[o.w] - 1
NoCode == 0 - 1
IsSpecial(o, c) == c = o.clear \/ c = o.stop

\* The code that follows c in order of definition (c = -1: before the first one);
\* MaxCode+1 or more once the code space is used up.
RECURSIVE Skip(_, _)
Skip(o, c) == IF c <= o.maxsym THEN Skip(o, o.maxsym + 1)
              ELSE IF IsSpecial(o, c) THEN Skip(o, c + 1) ELSE c
NextCode(o, c) == Skip(o, c + 1)
FirstCode(o) == NextCode(o, NoCode)

(***************************************************************************)
(* The table.  d = [sym, par, ch, sib, next]:                              *)
(*   string of code c = string of par[c], then sym[c]  (literals: par = -1)*)
(*   ch[c], sib[c]: first extension of c's string, next one of the same    *)
(*   next: the code the next new string will get                           *)
(***************************************************************************)
DictInit(o) ==
    [ sym  |-> TLCEval([c \in 0..MaxCode(o) |-> IF c <= o.maxsym THEN c ELSE NoCode]),
      par  |-> TLCEval([c \in 0..MaxCode(o) |-> NoCode]),
      ch   |-> TLCEval([c \in 0..MaxCode(o) |-> NoCode]),
      sib  |-> TLCEval([c \in 0..MaxCode(o) |-> NoCode]),
      next |-> FirstCode(o) ]

Full(o, d) == d.next > MaxCode(o)
Defined(o, d, c) == c <= o.maxsym \/ (c < d.next /\ ~IsSpecial(o, c))

DictAdd(o, d, base, s) ==
    IF Full(o, d) THEN d
    ELSE LET c == d.next IN
         [ sym  |-> [d.sym EXCEPT ![c] = s],
           par  |-> [d.par EXCEPT ![c] = base],
           sib  |-> [d.sib EXCEPT ![c] = d.ch[base]],
           ch   |-> [d.ch EXCEPT ![base] = c],
           next |-> NextCode(o, c) ]

\* the code of base's string extended by s, or -1
RECURSIVE Among(_, _, _)
Among(d, c, s) == IF c = NoCode THEN NoCode ELSE IF d.sym[c] = s THEN c ELSE Among(d, d.sib[c], s)
Ext(d, base, s) == Among(d, d.ch[base], s)

RECURSIVE StrAcc(_, _, _)
StrAcc(d, c, acc) == IF d.par[c] = NoCode THEN << d.sym[c] >> \o acc
                     ELSE StrAcc(d, d.par[c], << d.sym[c] >> \o acc)
Str(d, c) == StrAcc(d, c, << >>)
RECURSIVE First(_, _)
First(d, c) == IF d.par[c] = NoCode THEN d.sym[c] ELSE First(d, d.par[c])

(***************************************************************************)
(* Coder: the longest prefix of in[i..] in the table, as [code, i] with i  *)
(* the first position not covered.                                         *)
(***************************************************************************)
RECURSIVE Longest(_, _, _, _)
Longest(d, c, in, i) ==
    IF i > Len(in) THEN [code |-> c, i |-> i]
    ELSE LET e == Ext(d, c, in[i]) IN
         IF e = NoCode THEN [code |-> c, i |-> i] ELSE Longest(d, e, in, i + 1)
Greedy(d, in, i) == Longest(d, in[i], in, i + 1)

(***************************************************************************)
(* Decoder: the string denoted by code c, given the previous code (-1: c   *)
(* is the first of its chunk).  ok = FALSE if c denotes no string.         *)
(***************************************************************************)
Denotes(o, d, prev, c) ==
    IF Defined(o, d, c) THEN [ok |-> TRUE, str |-> Str(d, c)]
    ELSE IF prev # NoCode /\ ~Full(o, d) /\ c = d.next
    THEN LET s == Str(d, prev) IN [ok |-> TRUE, str |-> Append(s, s[1])]
    ELSE [ok |-> FALSE, str |-> << >>]
\* the decoder's table after code c (string s) following prev
Learn(o, d, prev, s) == IF prev = NoCode THEN d ELSE DictAdd(o, d, prev, s[1])

(***************************************************************************)
(* Option sets for which a stream determines its data.                     *)
(***************************************************************************)
Consistent(o) ==
    /\ o.w \in 1..16 /\ o.chunk >= 0 /\ o.maxsym \in 0..255 /\ o.maxsym <= MaxCode(o)
    /\ o.clear # NoCode => o.clear \in (o.maxsym + 1)..MaxCode(o)
    /\ o.stop  # NoCode => o.stop \in (o.maxsym + 1)..MaxCode(o) /\ o.stop # o.clear
    /\ o.hb > 0 => /\ o.w % o.hd = 0
                   /\ o.hb <= 16
                   /\ ((o.chunk + 2) * o.w) \div o.hd < P2[o.hb]
    /\ o.hb = 0 /\ o.stop = NoCode => o.w >= 8
=============================================================================
