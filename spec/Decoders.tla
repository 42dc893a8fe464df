------------------------------ MODULE Decoders -------------------------------
(***************************************************************************)
(* Decoders rewrite a list of byte strings (UTF-8 texts).                  *)
(***************************************************************************)
EXTENDS Encodings

\* " ."->"."  " ?"->"?"  " !"->"!"  " ,"->","  " ' "->"'"  " n't"->"n't"  " 'm"->"'m"
\* " do not"->" don't"  " 's"->"'s"  " 've"->"'ve"  " 're"->"'re", in this order
CleanupRules == <<
  <<<<32, 46>>, <<46>>>>, <<<<32, 63>>, <<63>>>>, <<<<32, 33>>, <<33>>>>, <<<<32, 44>>, <<44>>>>,
  <<<<32, 39, 32>>, <<39>>>>, <<<<32, 110, 39, 116>>, <<110, 39, 116>>>>, <<<<32, 39, 109>>, <<39, 109>>>>,
  <<<<32, 100, 111, 32, 110, 111, 116>>, <<32, 100, 111, 110, 39, 116>>>>,
  <<<<32, 39, 115>>, <<39, 115>>>>, <<<<32, 39, 118, 101>>, <<39, 118, 101>>>>,
  <<<<32, 39, 114, 101>>, <<39, 114, 101>>>> >>
Cleanup(b) == FoldLeft(LAMBDA x, r : Substitute(x, r[1], r[2]), b, CleanupRules)

WordPieceDecode(d, toks) ==
  [k \in 1..Len(toks) |->
     LET b == toks[k]
         s == IF k = 1 THEN b
              ELSE IF HasPrefix(b, d.prefix) THEN SubSeq(b, Len(d.prefix) + 1, Len(b))
              ELSE <<32>> \o b
     IN IF d.cleanup THEN Cleanup(s) ELSE s]

IsHex(c) == c \in (48..57) \cup (65..70) \cup (97..102)
HexValue(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsByteToken(b) ==
  Len(b) = 6 /\ b[1] = 60 /\ b[2] = 48 /\ b[3] = 120 /\ IsHex(b[4]) /\ IsHex(b[5]) /\ b[6] = 62
ByteOf(b) == HexValue(b[4]) * 16 + HexValue(b[5])
Replacement == <<239, 191, 189>>
\* what a run of bytes becomes
RunText(run) == IF run = <<>> THEN <<>> ELSE IF ValidUtf8(run) THEN <<run>> ELSE Fill(Len(run), Replacement)
ByteFallbackDecode(toks) ==
  LET st == FoldLeft(LAMBDA s, b :
                IF IsByteToken(b) THEN [s EXCEPT !.run = Append(@, ByteOf(b))]
                ELSE [out |-> s.out \o RunText(s.run) \o <<b>>, run |-> <<>>],
              [out |-> <<>>, run |-> <<>>], toks)
  IN st.out \o RunText(st.run)

RECURSIVE StripLead(_, _, _)
StripLead(b, s, n) == IF n > 0 /\ HasPrefix(b, s) THEN StripLead(SubSeq(b, Len(s) + 1, Len(b)), s, n - 1) ELSE b
RECURSIVE StripTrail(_, _, _)
StripTrail(b, s, n) == IF n > 0 /\ HasSuffix(b, s) THEN StripTrail(SubSeq(b, 1, Len(b) - Len(s)), s, n - 1) ELSE b
StripDecode(d, toks) ==
  IF d.c = <<>> THEN toks ELSE [k \in 1..Len(toks) |-> StripTrail(StripLead(toks[k], d.c, d.start), d.c, d.stop)]

ByteLevelDecode(toks) ==
  <<Flatten([k \in 1..Len(toks) |->
      FlatMap(FromUtf8(toks[k]), LAMBDA c : IF IsByteChar(c) THEN <<CharByte(c)>> ELSE Utf8Char(c))])>>

RECURSIVE DecodeChain(_, _)
DecodeChain(d, toks) ==
  CASE d.k = "WordPiece" -> WordPieceDecode(d, toks)
    [] d.k = "Replace" -> IF d.p = <<>> THEN toks ELSE [k \in 1..Len(toks) |-> Substitute(toks[k], d.p, d.c)]
    [] d.k = "ByteFallback" -> ByteFallbackDecode(toks)
    [] d.k = "Fuse" -> <<Flatten(toks)>>
    [] d.k = "Strip" -> StripDecode(d, toks)
    [] d.k = "ByteLevel" -> ByteLevelDecode(toks)
    [] d.k = "Seq" -> FoldLeft(LAMBDA x, y : DecodeChain(y, x), toks, d.l)

\* the token texts of the ids decode knows and keeps
KeptTokens(cm, reg, ids, skip) ==
  LET Text1(d) ==
        LET at == SelectInSeq(reg.toks, LAMBDA e : e.id = d)
        IN IF at > 0 THEN <<reg.toks[at].content>>
           ELSE IF cm # <<>> /\ d \in DOMAIN cm[1].rev THEN <<cm[1].rev[d]>> ELSE <<>>
      all == Flatten([k \in 1..Len(ids) |-> Text1(ids[k])])
  IN IF skip THEN SelectSeq(all, LAMBDA t : t \notin reg.special) ELSE all

DecodeIds(cm, reg, dec, ids, skip) ==
  LET toks == KeptTokens(cm, reg, ids, skip)
      bs == [k \in 1..Len(toks) |-> Utf8(toks[k])]
  IN IF dec # <<>> THEN Flatten(DecodeChain(dec[1], bs))
     ELSE Flatten([k \in 1..Len(bs) |-> IF k = 1 THEN bs[k] ELSE <<32>> \o bs[k]])
=============================================================================
