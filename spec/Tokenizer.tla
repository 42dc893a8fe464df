------------------------------ MODULE Tokenizer ------------------------------
(***************************************************************************)
(* The tokenizers of a process as a state machine.  tks[k] is the state of *)
(* the k-th tokenizer constructed: its configuration, the compiled model   *)
(* and the tokens registered so far.  That is ALL the state there is:      *)
(* encode and decode leave tks unchanged (C18), whatever caches the        *)
(* implementation keeps.  last is what the latest call returned:           *)
(* [ok |-> FALSE] for a standard exception, or [ok |-> TRUE, v |-> value]. *)
(***************************************************************************)
EXTENDS Decoders

VARIABLES tks, last
vars == <<tks, last>>

Threw == [ok |-> FALSE]
Returned(v) == [ok |-> TRUE, v |-> v]

NewTokenizer(cfg) ==
  LET cm == Compile(cfg.model)
  IN [cfg |-> cfg, cm |-> cm, reg |-> Register(cm, cfg.norm, NoTokens, cfg.added)]

\* the stages of encode, in order
PreTokenized(tk, text) == PreTokenizeOpt(tk.cfg.pre, Extract(tk.reg, tk.cfg.norm, text))
Tokenized(tk, text) == IntoEncoding(ApplyModel(tk.cm, PreTokenized(tk, text)))
EncodeWith(tk, text, special) ==
  LET cut == TruncateOpt(tk.cfg.trunc, AddedCount(tk.cfg.post, special), Tokenized(tk, text))
  IN IF cut = <<>> THEN Threw
     ELSE Returned(PadOpt(tk.cfg.pad, PostProcessOpt(tk.cfg.post, cut[1], special)))
DecodeWith(tk, ids, skip) == Returned(DecodeIds(tk.cm, tk.reg, tk.cfg.dec, ids, skip))

-----------------------------------------------------------------------------
(* Actions *)

Init == tks = <<>> /\ last = Returned(<<>>)

Construct(cfg) ==
  /\ tks' = Append(tks, NewTokenizer(cfg))
  /\ last' = Returned(Len(tks) + 1)

\* a configuration that is rejected: no tokenizer comes to be
Reject == tks' = tks /\ last' = Threw

AddTokens(k, toks) ==
  /\ tks' = [tks EXCEPT ![k].reg = Register(tks[k].cm, tks[k].cfg.norm, @, toks)]
  /\ last' = Returned(RegisteredCount(toks))

Encode(k, text, special) ==
  /\ tks' = tks
  /\ last' = EncodeWith(tks[k], text, special)

Decode(k, ids, skip) ==
  /\ tks' = tks
  /\ last' = DecodeWith(tks[k], ids, skip)
=============================================================================
