------------------------------ MODULE Encodings ------------------------------
(***************************************************************************)
(* Encodings, truncation, post-processing and padding.  An encoding is     *)
(* [ids, types, toks, words, offs, spec, att, over]; a position without a  *)
(* word has word -1.                                                       *)
(***************************************************************************)
EXTENDS AddedVocab

EmptyEnc == [ids |-> <<>>, types |-> <<>>, toks |-> <<>>, words |-> <<>>, offs |-> <<>>, spec |-> <<>>, att |-> <<>>, over |-> <<>>]
Fill(n, x) == [k \in 1..n |-> x]
EncLen(e) == Len(e.ids)

\* every model or added token, with the original range of its characters
IntoEncoding(pt) ==
  LET at == Flatten([k \in 1..Len(pt.s) |-> [m \in 1..Len(pt.s[k].t) |-> <<k, m>>]])
      n == Len(at)
      T(x) == pt.s[at[x][1]].t[at[x][2]]
  IN [ids |-> [x \in 1..n |-> T(x).id], types |-> Fill(n, 0), toks |-> [x \in 1..n |-> T(x).v],
      words |-> [x \in 1..n |-> at[x][1] - 1],
      offs |-> [x \in 1..n |-> Origin(pt.n, pt.s[at[x][1]].i + T(x).i, pt.s[at[x][1]].i + T(x).j)],
      spec |-> Fill(n, 0), att |-> Fill(n, 1), over |-> <<>>]

\* e's positions [i, j), without its overflow
Window(e, i, j) ==
  [ids |-> Slice(e.ids, i, j), types |-> Slice(e.types, i, j), toks |-> Slice(e.toks, i, j),
   words |-> Slice(e.words, i, j), offs |-> Slice(e.offs, i, j), spec |-> Slice(e.spec, i, j),
   att |-> Slice(e.att, i, j), over |-> <<>>]
Join(a, b) ==
  [ids |-> a.ids \o b.ids, types |-> a.types \o b.types, toks |-> a.toks \o b.toks, words |-> a.words \o b.words,
   offs |-> a.offs \o b.offs, spec |-> a.spec \o b.spec, att |-> a.att \o b.att, over |-> a.over]

-----------------------------------------------------------------------------
(* Truncation *)

\* windows of length max over n positions, stepping max - stride from one end
Windows(n, max, stride, dir) ==
  LET step == max - stride
      \* the first k whose window reaches the far end
      last == IF n <= max THEN 0 ELSE (n - max + step - 1) \div step
  IN [k \in 1..(last + 1) |->
        LET d == (k - 1) * step
        IN IF dir = "Right" THEN <<d, MinI(d + max, n)>> ELSE <<MaxI(0, n - d - max), n - d>>]

\* truncate e to limit tokens: <<>> stands for the exception
TruncateTo(tr, limit, e) ==
  LET n == EncLen(e) IN
  IF limit <= 0 THEN <<IF n = 0 THEN e ELSE [EmptyEnc EXCEPT !.over = <<e>>]>>
  ELSE IF n <= limit THEN <<e>>
  ELSE IF tr.strat = "OnlySecond" THEN <<e>>
  ELSE IF tr.stride >= limit THEN <<>>
  ELSE LET ws == Windows(n, limit, tr.stride, tr.dir)
       IN <<[Window(e, ws[1][1], ws[1][2]) EXCEPT !.over =
               [k \in 1..(Len(ws) - 1) |-> Window(e, ws[k + 1][1], ws[k + 1][2])]]>>

TruncateOpt(opt, added, e) ==
  IF opt = <<>> THEN <<e>> ELSE TruncateTo(opt[1], MaxI(0, opt[1].max - added), e)

-----------------------------------------------------------------------------
(* Post-processing *)

SpecialOf(p, id) == p.specials[SelectInSeq(p.specials, LAMBDA s : s.id = id)]

SpecialPiece(s, type) ==
  LET n == Len(s.ids)
  IN [ids |-> s.ids, types |-> Fill(n, type), toks |-> s.toks, words |-> Fill(n, -1), offs |-> Fill(n, <<0, 0>>),
      spec |-> Fill(n, 1), att |-> Fill(n, 1), over |-> <<>>]

RECURSIVE Template(_, _, _)
Template(p, e, special) ==
  LET Piece(x) == IF x.sp THEN (IF special THEN SpecialPiece(SpecialOf(p, x.id), x.type) ELSE EmptyEnc)
                  ELSE [e EXCEPT !.types = Fill(EncLen(e), x.type), !.over = <<>>]
      joined == FoldLeft(Join, EmptyEnc, [k \in 1..Len(p.single) |-> Piece(p.single[k])])
  IN [joined EXCEPT !.over = [k \in 1..Len(e.over) |-> Template(p, e.over[k], special)]]

\* leading and trailing "Ġ" (the byte-level space)
CountLead(t) == FirstIn(0, Len(t), LAMBDA k : t[k + 1] # 288)
CountTrail(t) == FirstIn(0, Len(t), LAMBDA k : t[Len(t) - k] # 288)
TrimRange(prefix, first, t, r) ==
  LET lead0 == CountLead(t)
      trail == CountTrail(t)
      lead == IF first /\ prefix /\ lead0 = 1 THEN 0 ELSE lead0
      a == MinI(r[1] + lead, r[2])
      b == IF trail > 0 /\ r[2] >= trail THEN MaxI(r[2] - trail, a) ELSE r[2]
  IN IF lead0 = 0 /\ trail = 0 THEN r ELSE <<a, b>>
Trim(p, e) ==
  [e EXCEPT !.offs = [k \in 1..EncLen(e) |-> TrimRange(p.prefix, k = 1 \/ e.offs[k][1] = 0, e.toks[k], e.offs[k])]]

RECURSIVE PostProcess(_, _, _)
PostProcess(p, e, special) ==
  CASE p.k = "Template" -> Template(p, e, special)
    [] p.k = "ByteLevel" -> IF p.trim THEN [Trim(p, e) EXCEPT !.over = [k \in 1..Len(e.over) |-> Trim(p, e.over[k])]] ELSE e
    [] p.k = "Seq" -> FoldLeft(LAMBDA x, q : PostProcess(q, x, special), e, p.l)
PostProcessOpt(opt, e, special) == IF opt = <<>> THEN e ELSE PostProcess(opt[1], e, special)

\* the special tokens post-processing adds to an empty sequence
AddedCount(opt, special) == EncLen(PostProcessOpt(opt, EmptyEnc, special))

-----------------------------------------------------------------------------
(* Padding *)

PadTarget(p, n) ==
  LET m == IF p.fixed # <<>> THEN p.fixed[1] ELSE n
  IN IF p.mult > 0 /\ m % p.mult > 0 THEN m + (p.mult - (m % p.mult)) ELSE m

PadPiece(p, n) ==
  [ids |-> Fill(n, p.id), types |-> Fill(n, p.type), toks |-> Fill(n, p.tok), words |-> Fill(n, 0),
   offs |-> Fill(n, <<0, 0>>), spec |-> Fill(n, 1), att |-> Fill(n, 0), over |-> <<>>]

RECURSIVE PadTo(_, _, _)
PadTo(p, n, e) ==
  LET over == [k \in 1..Len(e.over) |-> PadTo(p, n, e.over[k])]
      d == PadPiece(p, MaxI(0, n - EncLen(e)))
      bare == [e EXCEPT !.over = <<>>]
  IN [(IF p.dir = "Left" THEN Join(d, bare) ELSE Join(bare, d)) EXCEPT !.over = over]

PadOpt(opt, e) == IF opt = <<>> THEN e ELSE PadTo(opt[1], PadTarget(opt[1], EncLen(e)), e)
=============================================================================
