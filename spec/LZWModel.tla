------------------------------ MODULE LZWModel ------------------------------
(***************************************************************************)
(* The LZW coder and decoder in lockstep, for unbounded input chosen       *)
(* symbol by symbol.  One action per step of the implementation's loop:    *)
(*   Feed     a symbol is read; either the match is extended, or its code  *)
(*            is put out, a new string defined, and the match restarts     *)
(*   Finish   the input ends: pending match, stop code, padding            *)
(* The decoder consumes each code as it is put out.                        *)
(*                                                                         *)
(* The same module serves three purposes:                                  *)
(*  - LZWMC.cfg: exhaustive: all reachable states of both sides for small  *)
(*    widths, no history, hence inputs of every length;                    *)
(*  - LZWCover.cfg: the same state space with the history hidden by VIEW:  *)
(*    for each reachable state, one vector (options, input, exact stream)  *)
(*    that drives the coder there, replayed on the real code;              *)
(*  - LZWGen.cfg: all inputs up to a length, a vector for each of them.    *)
(***************************************************************************)
EXTENDS LZW, Json, IOUtils

CONSTANTS MaxLen,        \* bound on the input length
          Hist,          \* TRUE: keep the history variables
          Emit           \* TRUE: print a vector at every Finish (needs Hist)

\* option sets: from a file, so that the same list drives the implementation
Configs == ndJsonDeserialize(IOEnv.CONFIGS)

VARIABLES o,             \* options
          d, m, n,       \* coder: table, code of the current match (-1: none), codes in chunk
          dd, dp,        \* decoder: table, previous code of the chunk
          phase,         \* "run", "done", "bad"
          inp, outp,     \* history: input so far; what the decoder put out
          codes          \* history: chunks of codes, as written
vars == << o, d, m, n, dd, dp, phase, inp, outp, codes >>
View == << o, d, m, n, dd, dp, phase >>

Init == /\ \E i \in 1..Len(Configs) : o = Configs[i]
        /\ d = DictInit(o) /\ m = NoCode /\ n = 0
        /\ dd = DictInit(o) /\ dp = NoCode
        /\ phase = "run" /\ inp = << >> /\ outp = << >> /\ codes = << << >> >>

\* the decoder takes code c: new [dd, dp, out, ok]
Take(dd0, dp0, c) ==
    LET r == Denotes(o, dd0, dp0, c) IN
    [ok |-> r.ok, out |-> r.str, dp |-> c,
     dd |-> IF r.ok THEN Learn(o, dd0, dp0, r.str) ELSE dd0]

Closes(k) == k >= o.chunk

\* history values, dropped when not wanted
H(x) == IF Hist THEN x ELSE << >>

\* append code list cs to the open chunk
Put(hist, cs) == IF ~Hist THEN hist ELSE [hist EXCEPT ![Len(hist)] = @ \o cs]

FeedExtend(s) ==
    /\ phase = "run" /\ Len(inp) < MaxLen
    /\ LET e == IF m = NoCode THEN s ELSE Ext(d, m, s) IN
       /\ e # NoCode /\ m' = e
    /\ inp' = H(Append(inp, s))
    /\ UNCHANGED << o, d, n, dd, dp, phase, outp, codes >>

FeedBreak(s) ==
    /\ phase = "run" /\ Len(inp) < MaxLen
    /\ m # NoCode /\ Ext(d, m, s) = NoCode
    /\ LET t == Take(dd, dp, m) IN
       /\ outp' = H(outp \o t.out)
       /\ phase' = IF t.ok /\ t.out = Str(d, m) THEN "run" ELSE "bad"
       /\ IF Closes(n + 1)
          THEN \* chunk full: clear code, fresh tables, next chunk starts with s
               /\ codes' = H(Append(Put(codes, IF o.clear = NoCode THEN << m >> ELSE << m, o.clear >>), << >>))
               /\ d' = DictInit(o) /\ dd' = DictInit(o) /\ dp' = NoCode /\ n' = 0
          ELSE /\ codes' = H(Put(codes, << m >>))
               /\ d' = DictAdd(o, d, m, s) /\ dd' = t.dd /\ dp' = t.dp /\ n' = n + 1
    /\ m' = s /\ inp' = H(Append(inp, s))
    /\ UNCHANGED o

Feed == \E s \in 0..o.maxsym : FeedExtend(s) \/ FeedBreak(s)

(* -- the exact stream for the codes written -- *)
FlatBits(cs) ==
    LET RECURSIVE B(_, _)
        B(i, acc) == IF i > Len(cs) THEN acc ELSE B(i + 1, acc \o FieldBits(cs[i], o.w, o.ord))
    IN  B(1, << >>)
HdrVal(cs) == (Len(cs) * o.w) \div o.hd
StreamBits(chs) ==
    LET RECURSIVE B(_, _)
        B(i, acc) == IF i > Len(chs) THEN acc
                     ELSE B(i + 1, acc \o (IF o.hb > 0 THEN FieldBits(HdrVal(chs[i]), o.hb, o.ord) ELSE << >>)
                                       \o FlatBits(chs[i]))
    IN  B(1, << >>)
Stream(chs) == PackBits(StreamBits(chs), o.ord)

Finish ==
    /\ phase = "run"
    /\ LET t   == IF m = NoCode THEN [ok |-> TRUE, out |-> << >>, dp |-> dp, dd |-> dd] ELSE Take(dd, dp, m)
           all == Put(codes, (IF m = NoCode THEN << >> ELSE << m >>)
                             \o (IF o.stop = NoCode THEN << >> ELSE << o.stop >>))
       IN  /\ phase' = IF t.ok /\ (m # NoCode => t.out = Str(d, m)) THEN "done" ELSE "bad"
           /\ outp' = H(outp \o t.out) /\ codes' = H(all)
           /\ IF ~Emit THEN TRUE ELSE PrintT("VEC " \o ToJson([o |-> o, in |-> inp, out |-> Stream(all)]))
    /\ UNCHANGED << o, d, m, n, dd, dp, inp >>

Next == Feed \/ Finish
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
ConfigsOK == Consistent(o)
\* every code put out was decoded, to the string that was matched
InSync == phase # "bad"
\* the decoder's table is the coder's but for the newest string
TablesAgree ==
    phase = "run" =>
      /\ dp = NoCode => d.next = FirstCode(o) /\ dd.next = FirstCode(o)
      /\ dp # NoCode /\ ~Full(o, dd) => d.next = NextCode(o, dd.next)
      /\ \A c \in 0..MaxCode(o) : c < dd.next => dd.sym[c] = d.sym[c] /\ dd.par[c] = d.par[c]
\* no literal, clear or stop code ever becomes a string's code; no string has two codes
TableOK ==
    /\ \A c \in 0..MaxCode(o) : d.par[c] # NoCode => c > o.maxsym /\ ~IsSpecial(o, c) /\ c < d.next
    /\ \A c \in 0..MaxCode(o), e \in 0..MaxCode(o) : c # e /\ d.sym[c] # NoCode /\ d.sym[e] # NoCode => Str(d, c) # Str(d, e)
\* the match is a defined code, and never a special one
MatchOK == m # NoCode => Defined(o, d, m)
ChunkOK == n <= o.chunk + 1 /\ (o.hb > 0 => ((n + 2) * o.w) \div o.hd < P2[o.hb])
\* what has been decoded and what is pending is the input (needs the history: not under VIEW)
Lossless == Hist =>
            /\ phase = "run"  => outp \o (IF m = NoCode THEN << >> ELSE Str(d, m)) = inp
            /\ phase = "done" => outp = inp
=============================================================================
