-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* The library's parts without a tokenizer around them: components made by *)
(* their constructors, a model looked into, an added vocabulary of one's   *)
(* own, a splitting rule or a merge table of one's own.  They are the same *)
(* operators the stages of encode and decode are made of.                  *)
(***************************************************************************)
EXTENDS Config

\* What a constructor makes of its first n arguments: those left out have their defaults.
GivenBert(c, n) ==
  [k |-> "Bert", clean |-> IF n >= 1 THEN c.clean ELSE TRUE, cjk |-> IF n >= 2 THEN c.cjk ELSE TRUE,
   strip |-> IF n >= 3 THEN c.strip ELSE 1, lower |-> IF n >= 4 THEN c.lower ELSE TRUE]
GivenWordPiece(m, n) ==       \* the vocabulary is always given
  [m EXCEPT !.unk = IF n >= 1 THEN @ ELSE <<91, 85, 78, 75, 93>>, !.maxc = IF n >= 2 THEN @ ELSE 100,
            !.cont = IF n >= 3 THEN @ ELSE <<35, 35>>]
GivenDecoder(d, n) ==
  [d EXCEPT !.prefix = IF n >= 1 THEN @ ELSE <<35, 35>>, !.cleanup = IF n >= 2 THEN @ ELSE TRUE]
\* id and content are always given
GivenToken(t, n) ==
  [content |-> t.content, sw |-> n >= 3 /\ t.sw, ls |-> n >= 4 /\ t.ls, rs |-> n >= 5 /\ t.rs,
   nz |-> IF n >= 6 THEN t.nz ELSE TRUE, sp |-> n >= 7 /\ t.sp]

\* the component of the call: op says of which stage it is
Made(op, c, n) ==
  CASE n < 0 -> c
    [] op = "norm" -> GivenBert(c, n)
    [] op = "model" -> GivenWordPiece(c, n)
    [] op \in {"chain", "join"} -> GivenDecoder(c, n)

-----------------------------------------------------------------------------
(* Looking into a model: the vocabulary's two directions and its size *)
LookInto(cm, ask, ids) ==
  [size |-> Cardinality(DOMAIN cm.voc),
   ids |-> [k \in 1..Len(ask) |-> IF ask[k] \in DOMAIN cm.voc THEN <<cm.voc[ask[k]]>> ELSE <<>>],
   toks |-> [k \in 1..Len(ids) |-> IF ids[k] \in DOMAIN cm.rev THEN <<cm.rev[ids[k]]>> ELSE <<>>]]
\* an id that several tokens share names any one of them
LooksInto(cm, ask, ids, got) ==
  LET exp == LookInto(cm, ask, ids)
  IN /\ [got EXCEPT !.toks = <<>>] = [exp EXCEPT !.toks = <<>>]
     /\ Len(got.toks) = Len(ids)
     /\ \A k \in 1..Len(ids) :
          IF exp.toks[k] = <<>> THEN got.toks[k] = <<>>
          ELSE Len(got.toks[k]) = 1 /\ got.toks[k][1] \in DOMAIN cm.voc /\ cm.voc[got.toks[k][1]] = ids[k]

-----------------------------------------------------------------------------
(* An added vocabulary of one's own: registering, naming, recognising *)
RECURSIVE RegisterBatches(_, _, _, _)
RegisterBatches(cm, norm, reg, bs) ==
  IF bs = <<>> THEN reg
  ELSE RegisterBatches(cm, norm, Register(cm, norm, reg, [k \in 1..Len(bs[1].toks) |-> GivenToken(bs[1].toks[k], bs[1].toks[k].args)]), Tail(bs))
\* ids that have more than one content have any of them as their name: none of the sessions has such
RegNames(reg, ids) ==
  [k \in 1..Len(ids) |-> LET at == SelectInSeq(reg.toks, LAMBDA e : e.id = ids[k])
                         IN IF at = 0 THEN <<>> ELSE <<reg.toks[at].content>>]
FoundView(pt) ==
  [c |-> pt.n.c, o |-> pt.n.o,
   s |-> [k \in 1..Len(pt.s) |->
            [x |-> SplitText(pt, pt.s[k]), i |-> pt.s[k].i, j |-> pt.s[k].j,
             t |-> [m \in 1..Len(pt.s[k].t) |-> <<pt.s[k].t[m].id, pt.s[k].t[m].v, pt.s[k].t[m].i, pt.s[k].t[m].j>>]]]]
OwnVocabulary(model, norm, batches, ids, ask, texts) ==
  LET cm == Compile(model)
      reg == RegisterBatches(cm, norm, NoTokens, batches)
  IN [counts |-> [k \in 1..Len(batches) |-> RegisteredCount(batches[k].toks)],
      toks |-> RegNames(reg, ids),
      special |-> [k \in 1..Len(ask) |-> ask[k] \in reg.special],
      found |-> [k \in 1..Len(texts) |-> FoundView(Extract(reg, norm, texts[k]))]]

-----------------------------------------------------------------------------
(* Splitting by a rule of one's own: the characters of a set, alone or in runs *)
OwnPieces(set, runs, t) ==
  LET Starts(k) == k = 1 \/ (t[k] \in set) # (t[k - 1] \in set) \/ (t[k] \in set /\ ~runs)
      at == SelectSeq([k \in 1..Len(t) |-> k], Starts)
  IN [k \in 1..Len(at) |-> <<at[k] - 1, IF k = Len(at) THEN Len(t) ELSE at[k + 1] - 1, t[at[k]] \in set>>]
OwnSplit(set, runs, beh, pt) == Cut(pt, LAMBDA t : Delimit(beh, OwnPieces(set, runs, t)))

-----------------------------------------------------------------------------
(* Merging symbols of one's own: syms are <<id, position, length>>, the table's rows <<left, right, rank, new>> *)
OwnTable(rows) == [q \in {<<rows[k][1], rows[k][2]>> : k \in 1..Len(rows)} |->
                     LET k == CHOOSE x \in 1..Len(rows) : <<rows[x][1], rows[x][2]>> = q IN <<rows[k][3], rows[k][4]>>]
OwnMerge(syms, rows, drop) ==
  LET s == [k \in 1..Len(syms) |-> [id |-> syms[k][1], i |-> syms[k][2], j |-> syms[k][2] + syms[k][3]]]
      r == IF drop = 1 THEN s ELSE MergeAll(OwnTable(rows), s)
  IN [k \in 1..Len(r) |-> <<r[k].id, r[k].i, r[k].j - r[k].i>>]

ByteMap == [b \in 1..256 |-> <<ByteChar(b - 1)>>]
=============================================================================
