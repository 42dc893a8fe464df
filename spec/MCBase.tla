------------------------------- MODULE MCBase --------------------------------
(***************************************************************************)
(* What the exhaustive models share.  Each enumerates, within its bounds,  *)
(* configurations, inputs or histories; TLC checks the stated properties   *)
(* on every one of them and prints it as a CASE: a list of calls that is   *)
(* then replayed into the implementation and validated by module Trace.    *)
(***************************************************************************)
EXTENDS Coherence

Deep == IOEnv.VERIF_TIER = "thorough"
Emit(events) == PrintT("CASE " \o ToJson(events))

NoCfg == [trunc |-> <<>>, pad |-> <<>>, added |-> <<>>, norm |-> <<>>, pre |-> <<>>, model |-> <<>>, post |-> <<>>, dec |-> <<>>]
EvNew(cfg) == [op |-> "new", cfg |-> cfg, accept |-> TRUE]
EvEnc(k, text, special) == [op |-> "enc", k |-> k, text |-> text, special |-> special]
EvDec(k, ids, skip) == [op |-> "dec", k |-> k, ids |-> ids, skip |-> skip]
EvAdd(k, toks) == [op |-> "add", k |-> k, toks |-> toks]
EvNorm(n, t) == [op |-> "norm", cfg |-> n, in |-> Aligned(t)]
EvPre(p, t) == [op |-> "pre", cfg |-> p, n |-> Aligned(t), s |-> <<<<0, Len(t), FALSE>>>>]
EvModel(m, ws) == [op |-> "model", cfg |-> m, words |-> ws]
EvChain(d, toks) == [op |-> "chain", cfg |-> d, toks |-> toks]

NewTok(c, sw, ls, rs, nz, sp) == [content |-> c, sw |-> sw, ls |-> ls, rs |-> rs, nz |-> nz, sp |-> sp, id |-> 0]

\* all sequences over S of length lo..hi
SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
\* an encoding of n tokens of one letter each
Letters(n) == [ids |-> [k \in 1..n |-> k], types |-> Fill(n, 0), toks |-> [k \in 1..n |-> <<96 + k>>], words |-> [k \in 1..n |-> k - 1],
               offs |-> [k \in 1..n |-> <<k - 1, k>>], spec |-> Fill(n, 0), att |-> Fill(n, 1), over |-> <<>>]
=============================================================================
