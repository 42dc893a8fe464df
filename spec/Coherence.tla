----------------------------- MODULE Coherence ------------------------------
(***************************************************************************)
(* What every encoding must satisfy, whatever its configuration (C02), and *)
(* what truncation and padding promise (C13, C15).                         *)
(***************************************************************************)
EXTENDS Tokenizer

AllFields == {"ids", "types", "toks", "words", "offs", "spec", "att"}

\* every piece of b has parallel arrays
RECURSIVE Parallel(_)
Parallel(b) ==
  /\ \A f \in AllFields : Len(b[f]) = Len(b.ids)
  /\ \A k \in 1..Len(b.over) : Parallel(b.over[k])

\* each token is the one its id denotes: what tokens id d may be reported with
RECURSIVE TemplateTokens(_)
TemplateTokens(p) ==
  IF p.k = "Template" THEN UNION {{<<s.ids[k], s.toks[k]>> : k \in 1..Len(s.ids)} : s \in ToSet(p.specials)}
  ELSE IF p.k = "Seq" THEN UNION {TemplateTokens(q) : q \in ToSet(p.l)} ELSE {}
Denotes(tk) ==
  {<<e.id, e.content>> : e \in ToSet(tk.reg.toks)}
  \cup (IF tk.cm = <<>> THEN {}
        ELSE {<<tk.cm[1].voc[t], t>> : t \in DOMAIN tk.cm[1].voc}
             \cup (IF tk.cm[1].m.k = "WordPiece" /\ tk.cm[1].m.unk \notin DOMAIN tk.cm[1].voc
                   THEN {<<0, tk.cm[1].m.unk>>} ELSE {}))
  \cup (IF tk.cfg.post = <<>> THEN {} ELSE TemplateTokens(tk.cfg.post[1]))
  \cup (IF tk.cfg.pad = <<>> THEN {} ELSE {<<tk.cfg.pad[1].id, tk.cfg.pad[1].tok>>})
RECURSIVE Denoting(_, _)
Denoting(ds, b) ==
  /\ \A k \in 1..Len(b.ids) : <<b.ids[k], b.toks[k]>> \in ds
  /\ \A k \in 1..Len(b.over) : Denoting(ds, b.over[k])
\* word numbers never decrease over the positions that come from the text
RECURSIVE WordsOrdered(_)
WordsOrdered(b) ==
  LET at == SelectSeq([k \in 1..Len(b.ids) |-> k], LAMBDA k : b.spec[k] = 0)
  IN /\ \A k \in 2..Len(at) : b.words[at[k - 1]] <= b.words[at[k]]
     /\ \A k \in 1..Len(at) : b.words[at[k]] >= 0
     /\ \A k \in 1..Len(b.ids) : b.att[k] = 0 => b.spec[k] = 1
     /\ \A k \in 1..Len(b.over) : WordsOrdered(b.over[k])

Pieces(b) == <<b>> \o b.over

\* with truncation and no padding no piece is longer than max, unless the special tokens alone are
Bounded(tk, special, b) ==
  (tk.cfg.trunc # <<>> /\ tk.cfg.trunc[1].strat # "OnlySecond" /\ tk.cfg.pad = <<>>) =>
     LET cap == MaxI(tk.cfg.trunc[1].max, AddedCount(tk.cfg.post, special))
     IN IF tk.cfg.trunc[1].max > AddedCount(tk.cfg.post, special)
        THEN \A p \in ToSet(Pieces(b)) : EncLen(p) <= cap
        ELSE EncLen(b) <= cap

\* a padded encoding reaches its target length, and so does every piece a fixed one
Padded(tk, b) ==
  tk.cfg.pad # <<>> =>
     LET p == tk.cfg.pad[1]
     IN /\ p.fixed # <<>> => \A x \in ToSet(Pieces(b)) : EncLen(x) >= PadTarget(p, 0)
        /\ (p.fixed = <<>> /\ p.mult > 0) => EncLen(b) % p.mult = 0
=============================================================================
