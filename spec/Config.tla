------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What a tokenizer.json means: Configure(bytes) is                        *)
(*   [s |-> "ok", v |-> configuration]   it must be honoured,              *)
(*   [s |-> "bad"]                       it must be rejected, or           *)
(*   [s |-> "free"]                      the specification does not say.   *)
(* Something bad anywhere in what is used makes the whole bad; else        *)
(* something unsaid makes the whole unsaid.                                *)
(***************************************************************************)
EXTENDS RegexSyntax, Coherence, Binding

Good(v) == [s |-> "ok", v |-> v]
Bad == [s |-> "bad"]
Free == [s |-> "free"]

\* a record (or sequence) of outcomes as the outcome of the record
Record(r) ==
  LET ss == {r[f].s : f \in DOMAIN r}
  IN IF "bad" \in ss THEN Bad ELSE IF "free" \in ss THEN Free ELSE Good([f \in DOMAIN r |-> r[f].v])
Then(o, F(_)) == IF o.s = "ok" THEN F(o.v) ELSE o
\* o, provided that the outcome p is ok
Provided(p, o) == IF p.s = "ok" THEN o ELSE IF p.s = "bad" \/ o.s = "bad" THEN Bad ELSE Free

-----------------------------------------------------------------------------
(* Names *)

NameLetters == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
LetterCode(c) == LET k == CHOOSE x \in 1..Len(NameLetters) : SubSeq(NameLetters, x, x) = c
                 IN IF k <= 26 THEN 96 + k ELSE IF k <= 52 THEN 38 + k ELSE 95
Codes(name) == [k \in 1..Len(name) |-> LetterCode(SubSeq(name, k, k))]
Names == {
  "truncation", "padding", "added_tokens", "normalizer", "pre_tokenizer", "post_processor", "decoder", "model",
  "type", "direction", "strategy", "max_length", "stride", "Left", "Right", "LongestFirst", "OnlyFirst", "OnlySecond",
  "BatchLongest", "Fixed", "pad_to_multiple_of", "pad_id", "pad_type_id", "pad_token",
  "id", "content", "single_word", "lstrip", "rstrip", "normalized", "special",
  "NFC", "NFD", "NFKC", "NFKD", "StripAccents", "BertNormalizer", "clean_text", "handle_chinese_chars", "strip_accents", "lowercase",
  "Prepend", "prepend", "Replace", "pattern", "String", "Regex", "Strip", "strip_left", "strip_right", "Sequence", "normalizers",
  "BertPreTokenizer", "Split", "behavior", "invert", "Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous",
  "ByteLevel", "add_prefix_space", "use_regex", "trim_offsets", "pretokenizers",
  "WordPiece", "BPE", "vocab", "unk_token", "continuing_subword_prefix", "max_input_chars_per_word",
  "dropout", "end_of_word_suffix", "fuse_unk", "byte_fallback", "ignore_merges", "merges",
  "TemplateProcessing", "single", "pair", "special_tokens", "SpecialToken", "ids", "tokens", "type_id", "A", "processors",
  "prefix", "cleanup", "start", "stop", "ByteFallback", "Fuse", "decoders"}
CodesOf == [n \in Names |-> Codes(n)]
NameOf == [c \in {CodesOf[n] : n \in Names} |-> CHOOSE n \in Names : CodesOf[n] = c]
\* a text as a name, "" when the specification knows no such name
AsName(text) == IF text \in DOMAIN NameOf THEN NameOf[text] ELSE ""

-----------------------------------------------------------------------------
(* Values.  null where a value is needed is not specified. *)

Kind(v, kind, o) == IF v.t = kind THEN o ELSE IF v.t = "null" THEN Free ELSE Bad
Str(v) == Kind(v, "str", Good(v.s))
NameIn(v) == Then(Str(v), LAMBDA s : Good(AsName(s)))
Flag(v) == Kind(v, "bool", Good(v.b))
Number(v) == Kind(v, "int", Good(v.n))
Natural(v) == Then(Number(v), LAMBDA n : IF n >= 0 THEN Good(n) ELSE Bad)
OneOf(S, v) == Then(NameIn(v), LAMBDA w : IF w \in S THEN Good(w) ELSE Bad)
List(v, R(_)) == Kind(v, "arr", Record([k \in 1..Len(v.l) |-> R(v.l[k])]))
OrNull(v, none, R(_)) == IF v.t = "null" THEN Good(none) ELSE R(v)

\* objects whose keys are data
Repeats(m) == Cardinality({m[k][1] : k \in 1..Len(m)}) < Len(m)
Object(v, F(_)) == Kind(v, "obj", IF Repeats(v.m) THEN Free ELSE F(v.m))
\* objects whose keys are names
Fields(v, F(_)) == Object(v, LAMBDA m : IF \E k \in 1..Len(m) : ~m[k][3] THEN Free ELSE F(m))
Index(m, name) == SelectInSeq(m, LAMBDA f : f[1] = CodesOf[name])
\* a field that must be there; one that may be missing without saying what that means
Need(m, name, R(_)) == LET k == Index(m, name) IN IF k = 0 THEN Bad ELSE R(m[k][2])
May(m, name, R(_)) == LET k == Index(m, name) IN IF k = 0 THEN Free ELSE R(m[k][2])
\* one that means d when it is missing
Else(m, name, d, R(_)) == LET k == Index(m, name) IN IF k = 0 THEN Good(d) ELSE R(m[k][2])
KindOf(m) == Need(m, "type", NameIn)

\* {"String": text} or {"Regex": text}, one being supported here
Pattern(v, name, R(_)) ==
  Fields(v, LAMBDA m : LET k == Index(m, name) IN
    IF m = <<>> THEN Bad ELSE IF k = 0 \/ Len(m) > 1 THEN Free ELSE R(m[k][2]))

-----------------------------------------------------------------------------
(* Truncation and padding *)

TruncFields(m) == Record([
  dir |-> Need(m, "direction", LAMBDA v : OneOf({"Left", "Right"}, v)),
  max |-> Need(m, "max_length", Natural),
  strat |-> Need(m, "strategy", LAMBDA v : OneOf({"LongestFirst", "OnlyFirst", "OnlySecond"}, v)),
  stride |-> Need(m, "stride", Natural)])

PadStrategy(v) ==
  CASE v.t = "str" -> IF AsName(v.s) = "BatchLongest" THEN Good(<<>>) ELSE Bad
    [] v.t = "null" -> Free
    [] v.t = "obj" -> LET k == Index(v.m, "Fixed") IN
         IF v.m = <<>> THEN Bad
         ELSE IF Len(v.m) > 1 \/ AsName(v.m[1][1]) = "BatchLongest" \/ ~v.m[1][3] THEN Free
         ELSE IF k = 0 THEN Bad
         ELSE Then(Natural(v.m[k][2]), LAMBDA n : Good(<<n>>))
    [] OTHER -> Bad
\* a number of which nothing is said when negative
IdOf(v) == Then(Number(v), LAMBDA n : IF n >= 0 THEN Good(n) ELSE Free)
PadFields(m) == Record([
  fixed |-> Need(m, "strategy", PadStrategy),
  dir |-> Need(m, "direction", LAMBDA v : OneOf({"Left", "Right"}, v)),
  mult |-> May(m, "pad_to_multiple_of", LAMBDA v : OrNull(v, 0, Natural)),
  id |-> Need(m, "pad_id", IdOf),
  type |-> Need(m, "pad_type_id", IdOf),
  tok |-> Need(m, "pad_token", Str)])

-----------------------------------------------------------------------------
(* Added tokens *)

AddedFields(m) == Record([
  id |-> May(m, "id", Number), content |-> May(m, "content", Str), sw |-> Else(m, "single_word", FALSE, Flag), ls |-> Else(m, "lstrip", FALSE, Flag),
  rs |-> Else(m, "rstrip", FALSE, Flag), nz |-> Else(m, "normalized", TRUE, Flag), sp |-> Else(m, "special", FALSE, Flag)])
AddedToken(v) == Fields(v, AddedFields)

-----------------------------------------------------------------------------
(* Normalizers *)

RECURSIVE NormOf(_)
NormFields(m, kind) ==
  CASE kind \in {"NFC", "NFD", "NFKC", "NFKD", "StripAccents"} -> Good([k |-> kind])
    [] kind = "BertNormalizer" -> Record([
         k |-> Good("Bert"), clean |-> Need(m, "clean_text", Flag), cjk |-> Need(m, "handle_chinese_chars", Flag),
         strip |-> Need(m, "strip_accents", LAMBDA v : OrNull(v, 2, LAMBDA w : Then(Flag(w), LAMBDA b : Good(IF b THEN 1 ELSE 0)))),
         lower |-> Need(m, "lowercase", Flag)])
    [] kind = "Prepend" -> Record([k |-> Good(kind), s |-> Need(m, "prepend", Str)])
    [] kind = "Replace" -> Record([k |-> Good(kind), p |-> Need(m, "pattern", LAMBDA v : Pattern(v, "String", Str)), c |-> Need(m, "content", Str)])
    [] kind = "Strip" -> Record([k |-> Good(kind), left |-> Need(m, "strip_left", Flag), right |-> Need(m, "strip_right", Flag)])
    [] kind = "Sequence" -> Record([k |-> Good("Seq"), l |-> Need(m, "normalizers", LAMBDA v : List(v, NormOf))])
    [] OTHER -> Free
NormOf(v) == Fields(v, LAMBDA m : Then(KindOf(m), LAMBDA kind : NormFields(m, kind)))

-----------------------------------------------------------------------------
(* Pre-tokenizers *)

ReadPattern(v) == Then(Str(v), ReadRegex)
Behaviours == {"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}
RECURSIVE PreOf(_)
PreFields(m, kind) ==
  CASE kind = "BertPreTokenizer" -> Good([k |-> "Bert"])
    [] kind = "Split" -> Record([
         k |-> Good(kind), re |-> Need(m, "pattern", LAMBDA v : Pattern(v, "Regex", ReadPattern)),
         beh |-> Need(m, "behavior", LAMBDA v : OneOf(Behaviours, v)), inv |-> Need(m, "invert", Flag)])
    [] kind = "ByteLevel" -> Record([
         k |-> Good(kind), prefix |-> Need(m, "add_prefix_space", Flag), regex |-> May(m, "use_regex", Flag)])
    [] kind = "Sequence" -> Record([k |-> Good("Seq"), l |-> Need(m, "pretokenizers", LAMBDA v : List(v, PreOf))])
    [] OTHER -> Free
PreOf(v) == Fields(v, LAMBDA m : Then(KindOf(m), LAMBDA kind : PreFields(m, kind)))

-----------------------------------------------------------------------------
(* Models *)

\* a vocabulary: <<token, id>> pairs; ids that repeat are not specified
VocabEntries(m) ==
  Then(Record([k \in 1..Len(m) |-> Then(Number(m[k][2]), LAMBDA n : Good(<<m[k][1], n>>))]),
       LAMBDA es : IF Cardinality({es[k][2] : k \in 1..Len(es)}) < Len(es) \/ \E k \in 1..Len(es) : es[k][2] < 0 THEN Free ELSE Good(es))
VocabIn(v) == Object(v, VocabEntries)
Merge(v) == IF v.t = "arr" THEN Free ELSE Str(v)
Dropout(v) ==
  CASE v.t = "null" -> Good(0)
    [] v.t = "int" -> IF v.n = 0 THEN Good(0) ELSE IF v.n = 1 THEN Good(1) ELSE Free
    [] v.t = "real" -> IF v.c = "zero" THEN Good(0) ELSE IF v.c = "one" THEN Good(1) ELSE IF v.c = "between" THEN Good(2) ELSE Free
    [] v.t = "big" -> Free
    [] OTHER -> Bad
TextOrNull(v) == OrNull(v, <<>>, Str)
ModelFields(m, kind) ==
  CASE kind = "WordPiece" -> Record([
         k |-> Good(kind), vocab |-> Need(m, "vocab", VocabIn), unk |-> Need(m, "unk_token", Str),
         cont |-> Need(m, "continuing_subword_prefix", Str), maxc |-> Need(m, "max_input_chars_per_word", IdOf)])
    [] kind = "BPE" -> Record([
         k |-> Good(kind), vocab |-> Need(m, "vocab", VocabIn), merges |-> Need(m, "merges", LAMBDA v : List(v, Merge)),
         drop |-> May(m, "dropout", Dropout), unk |-> May(m, "unk_token", TextOrNull),
         cont |-> May(m, "continuing_subword_prefix", TextOrNull), eow |-> May(m, "end_of_word_suffix", TextOrNull),
         fuse |-> May(m, "fuse_unk", Flag), bf |-> May(m, "byte_fallback", Flag), ign |-> May(m, "ignore_merges", Flag)])
    [] OTHER -> Free
ModelOf(v) == Fields(v, LAMBDA m : Then(KindOf(m), LAMBDA kind : ModelFields(m, kind)))

-----------------------------------------------------------------------------
(* Post-processors *)

Piece(v) == Fields(v, LAMBDA m : Record([id |-> Need(m, "id", Str), type |-> Need(m, "type_id", Number)]))
TemplatePiece(v) ==
  Fields(v, LAMBDA m :
    IF m = <<>> THEN Bad ELSE IF Len(m) > 1 THEN Free
    ELSE LET w == AsName(m[1][1])
         IN IF w \notin {"SpecialToken", "Sequence"} THEN Bad
            ELSE Then(Piece(m[1][2]), LAMBDA x :
                   IF w = "Sequence" /\ AsName(x.id) # "A" THEN Free ELSE Good([sp |-> w = "SpecialToken", id |-> x.id, type |-> x.type])))
\* of the pieces for pairs only that they are pieces
PairPiece(v) == Fields(v, LAMBDA m : IF Len(m) # 1 THEN Free ELSE Piece(m[1][2]))
SpecialToken(v) ==
  Fields(v, LAMBDA m :
    Then(Record([id |-> Need(m, "id", Str), ids |-> Need(m, "ids", LAMBDA x : List(x, Number)), toks |-> Need(m, "tokens", LAMBDA x : List(x, Str))]),
         LAMBDA s : IF Len(s.ids) # Len(s.toks) THEN Bad ELSE Good(s)))
SpecialTokens(v) == Object(v, LAMBDA m : Record([k \in 1..Len(m) |-> SpecialToken(m[k][2])]))
TemplateCheck(t) ==
  IF \E k \in 1..Len(t.single) : t.single[k].sp /\ \A s \in ToSet(t.specials) : s.id # t.single[k].id THEN Bad
  ELSE IF Cardinality({t.specials[k].id : k \in 1..Len(t.specials)}) < Len(t.specials) THEN Free
  ELSE Good(t)
RECURSIVE PostOf(_)
PostFields(m, kind) ==
  CASE kind = "TemplateProcessing" ->
         Provided(Need(m, "pair", LAMBDA v : List(v, PairPiece)),
                  Then(Record([k |-> Good("Template"), single |-> Need(m, "single", LAMBDA v : List(v, TemplatePiece)), specials |-> Need(m, "special_tokens", SpecialTokens)]),
                       TemplateCheck))
    [] kind = "ByteLevel" -> Record([k |-> Good(kind), prefix |-> Need(m, "add_prefix_space", Flag), trim |-> Need(m, "trim_offsets", Flag)])
    [] kind = "Sequence" -> Record([k |-> Good("Seq"), l |-> Need(m, "processors", LAMBDA v : List(v, PostOf))])
    [] OTHER -> Free
PostOf(v) == Fields(v, LAMBDA m : Then(KindOf(m), LAMBDA kind : PostFields(m, kind)))

-----------------------------------------------------------------------------
(* Decoders: their texts are byte strings *)

Bytes(v) == Then(Str(v), LAMBDA s : Good(Utf8(s)))
OneChar(v) == Then(Str(v), LAMBDA s : IF Len(s) > 1 THEN Free ELSE Good(Utf8(s)))
RECURSIVE DecOf(_)
DecFields(m, kind) ==
  CASE kind = "WordPiece" -> Record([k |-> Good(kind), prefix |-> Need(m, "prefix", Bytes), cleanup |-> Need(m, "cleanup", Flag)])
    [] kind = "Replace" -> Record([k |-> Good(kind), p |-> Need(m, "pattern", LAMBDA v : Pattern(v, "String", Bytes)), c |-> Need(m, "content", Bytes)])
    [] kind = "Strip" -> Record([k |-> Good(kind), c |-> Need(m, "content", OneChar), start |-> Need(m, "start", IdOf), stop |-> Need(m, "stop", IdOf)])
    [] kind \in {"ByteFallback", "Fuse", "ByteLevel"} -> Good([k |-> kind])
    [] kind = "Sequence" -> Record([k |-> Good("Seq"), l |-> Need(m, "decoders", LAMBDA v : List(v, DecOf))])
    [] OTHER -> Free
DecOf(v) == Fields(v, LAMBDA m : Then(KindOf(m), LAMBDA kind : DecFields(m, kind)))

-----------------------------------------------------------------------------
(* The whole *)

Some(R(_), v) == OrNull(v, <<>>, LAMBDA w : Then(R(w), LAMBDA x : Good(<<x>>)))
Section(m, name, R(_)) == Need(m, name, LAMBDA v : Some(R, v))
TopFields(m) == Record([
  trunc |-> Section(m, "truncation", LAMBDA v : Fields(v, TruncFields)),
  pad |-> Section(m, "padding", LAMBDA v : Fields(v, PadFields)),
  added |-> Need(m, "added_tokens", LAMBDA v : OrNull(v, <<>>, LAMBDA w : List(w, AddedToken))),
  norm |-> Section(m, "normalizer", NormOf),
  pre |-> Section(m, "pre_tokenizer", PreOf),
  post |-> Section(m, "post_processor", PostOf),
  dec |-> Section(m, "decoder", DecOf),
  model |-> Section(m, "model", ModelOf)])

\* numbers and nestings beyond what a JSON reader must take
RECURSIVE Extreme(_, _)
Extreme(v, depth) ==
  \/ depth = 0
  \/ v.t = "big" \/ (v.t = "real" /\ v.c = "huge")
  \/ v.t = "arr" /\ \E k \in 1..Len(v.l) : Extreme(v.l[k], depth - 1)
  \/ v.t = "obj" /\ \E k \in 1..Len(v.m) : Extreme(v.m[k][2], depth - 1)
ByteOrderMark == <<239, 187, 191>>

Configure(b) ==
  LET r == ReadJson(b)
      o == IF r[1].t # "obj" THEN Bad ELSE Fields(r[1], TopFields)
  IN IF HasPrefix(b, ByteOrderMark) THEN Free
     ELSE IF r = <<>> THEN Bad
     ELSE IF o.s = "ok" /\ Extreme(r[1], 200) THEN Free
     ELSE o
=============================================================================
