------------------------------ MODULE MC_Config ------------------------------
(* C17: every small document and every component, written in several styles; each with one thing changed. *)
EXTENDS MCBase, Config
VARIABLES mode, subject
allvars == <<tks, last, mode, subject>>

-----------------------------------------------------------------------------
(* Writing JSON *)

Null0 == [t |-> "null"]
B(b) == [t |-> "bool", b |-> b]
I(n) == [t |-> "int", n |-> n]
T(s) == [t |-> "str", s |-> s]
A(l) == [t |-> "arr", l |-> l]
J(name) == T(CodesOf[name])
O(fields) == [t |-> "obj", m |-> [k \in 1..Len(fields) |-> <<CodesOf[fields[k][1]], fields[k][2], TRUE>>]]
K(keys) == [t |-> "obj", m |-> [k \in 1..Len(keys) |-> <<keys[k][1], keys[k][2], 34 \notin ToSet(keys[k][1])>>]]

\* a style: blanks around tokens, characters of values as escapes
Styles == {[ws |-> w, esc |-> e] : w \in {<<>>, <<32>>, <<10, 9, 13, 32>>}, e \in BOOLEAN}
LowHex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
U4(c) == <<92, 117, LowHex(c \div 4096), LowHex((c \div 256) % 16), LowHex((c \div 16) % 16), LowHex(c % 16)>>
Escaped(c) == IF c < 65536 THEN U4(c) ELSE U4(55296 + (c - 65536) \div 1024) \o U4(56320 + ((c - 65536) % 1024))
QuotedChar(c, esc) == IF esc \/ c < 32 THEN Escaped(c) ELSE IF c \in {34, 92} THEN <<92, c>> ELSE <<c>>
Quoted(s, esc) == <<34>> \o FoldLeft(LAMBDA a, c : a \o QuotedChar(c, esc), <<>>, s) \o <<34>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<45>> \o Decimal(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
\* the tokens of v, each a text
RECURSIVE PiecesOf(_, _)
\* what comes before an element: a comma, but for the first
Sep(a) == IF Len(a) = 1 THEN a ELSE Append(a, <<44>>)
PiecesOf(v, st) ==
  CASE v.t = "null" -> <<Null>>
    [] v.t = "bool" -> <<IF v.b THEN True ELSE False>>
    [] v.t = "int" -> <<Decimal(v.n)>>
    [] v.t = "str" -> <<Quoted(v.s, st.esc)>>
    [] v.t = "arr" -> Append(FoldLeft(LAMBDA a, e : Sep(a) \o PiecesOf(e, st), <<<<91>>>>, v.l), <<93>>)
    [] v.t = "obj" -> Append(FoldLeft(LAMBDA a, f : Sep(a) \o <<Quoted(f[1], FALSE), <<58>>>> \o PiecesOf(f[2], st), <<<<123>>>>, v.m), <<125>>)
Text(pieces, ws) == FoldLeft(LAMBDA a, p : a \o p \o ws, ws, pieces)
Write(v, st) == Utf8(Text(PiecesOf(v, st), st.ws))
Plain == [ws |-> <<>>, esc |-> FALSE]

Leaves == {Null0, B(TRUE), I(0), I(-120), T(<<>>), T(<<34, 92, 233>>), T(<<128512, 10, 93>>)}
Small == Leaves \cup {A(l) : l \in SeqsOf(Leaves, 0, 2)} \cup {K(<<>>)} \cup {K(<<<<k, v>>>>) : k \in {<<>>, <<97, 34>>}, v \in Leaves}
           \cup {K(<<<<<<97>>, v>>, <<k, w>>>>) : k \in {<<97>>, <<98>>}, v \in Leaves, w \in Leaves}
Nested == {A(<<v>>) : v \in Small} \cup {K(<<<<<<123>>, v>>>>) : v \in Small} \cup {A(<<I(1), v, A(<<v>>)>>) : v \in IF Deep THEN Small ELSE {}}
Trees == Small \cup Nested

-----------------------------------------------------------------------------
(* Components: section, how the object is wrapped there ("one", "list" or the name of a sequence's field),  *)
(* its fields in order, the fields that must be there, and what it all means                                *)

F(sec, wrap, fields, must, v) == [sec |-> sec, wrap |-> wrap, fields |-> fields, must |-> must, v |-> v]
Ty(name) == <<"type", J(name)>>
Re(s) == O(<<<<"Regex", T(s)>>>>)
St(s) == O(<<<<"String", T(s)>>>>)
VocabTree == K(<<<<<<97>>, I(0)>>, <<<<35, 35, 98>>, I(7)>>, <<<<91>>, I(3)>>>>)
Vocab == <<<<<<97>>, 0>>, <<<<35, 35, 98>>, 7>>, <<<<91>>, 3>>>>
PieceTree(kind, id, ty) == O(<<<<kind, O(<<<<"id", T(id)>>, <<"type_id", I(ty)>>>>)>>>>)
SpecTree(id) == O(<<<<"id", T(id)>>, <<"ids", A(<<I(4), I(5)>>)>>, <<"tokens", A(<<T(<<97>>), T(<<98>>)>>)>>>>)
Norm1(fields, must, v) == {F("normalizer", w, fields, must \cup {"type"}, v) : w \in {"one", "normalizers"}}
Pre1(fields, must, v) == {F("pre_tokenizer", w, fields, must \cup {"type"}, v) : w \in {"one", "pretokenizers"}}
Post1(fields, must, v) == {F("post_processor", w, fields, must \cup {"type"}, v) : w \in {"one", "processors"}}
Dec1(fields, must, v) == {F("decoder", w, fields, must \cup {"type"}, v) : w \in {"one", "decoders"}}
Components ==
  {F("truncation", "one", <<<<"direction", J(d)>>, <<"max_length", I(5)>>, <<"strategy", J(s)>>, <<"stride", I(2)>>>>, {"direction", "max_length", "strategy", "stride"},
     [dir |-> d, max |-> 5, strat |-> s, stride |-> 2]) : d \in {"Left", "Right"}, s \in {"LongestFirst", "OnlyFirst", "OnlySecond"}}
  \cup {F("padding", "one", <<<<"strategy", s[1]>>, <<"direction", J(d)>>, <<"pad_to_multiple_of", m[1]>>, <<"pad_id", I(9)>>, <<"pad_type_id", I(1)>>, <<"pad_token", T(<<80>>)>>>>,
     {"strategy", "direction", "pad_id", "pad_type_id", "pad_token"}, [dir |-> d, fixed |-> s[2], mult |-> m[2], id |-> 9, type |-> 1, tok |-> <<80>>]) :
       d \in {"Left", "Right"}, s \in {<<J("BatchLongest"), <<>>>>, <<O(<<<<"Fixed", I(6)>>>>), <<6>>>>}, m \in {<<Null0, 0>>, <<I(4), 4>>}}
  \cup {F("added_tokens", "list", <<<<"id", I(2)>>, <<"content", T(<<97, 32>>)>>, <<"single_word", B(f)>>, <<"lstrip", B(~f)>>, <<"rstrip", B(f)>>, <<"normalized", B(~f)>>, <<"special", B(f)>>>>, {},
                        [content |-> <<97, 32>>, id |-> 2, sw |-> f, ls |-> ~f, rs |-> f, nz |-> ~f, sp |-> f]) : f \in BOOLEAN}
  \cup UNION {Norm1(<<Ty(n)>>, {}, [k |-> n]) : n \in {"NFC", "NFD", "NFKC", "NFKD", "StripAccents"}}
  \cup UNION {Norm1(<<Ty("BertNormalizer"), <<"clean_text", B(TRUE)>>, <<"handle_chinese_chars", B(FALSE)>>, <<"strip_accents", s[1]>>, <<"lowercase", B(TRUE)>>>>,
       {"clean_text", "handle_chinese_chars", "strip_accents", "lowercase"}, [k |-> "Bert", clean |-> TRUE, cjk |-> FALSE, strip |-> s[2], lower |-> TRUE]) : s \in {<<Null0, 2>>, <<B(TRUE), 1>>, <<B(FALSE), 0>>}}
  \cup Norm1(<<Ty("Prepend"), <<"prepend", T(<<9601>>)>>>>, {"prepend"}, [k |-> "Prepend", s |-> <<9601>>])
  \cup Norm1(<<Ty("Replace"), <<"pattern", St(<<97>>)>>, <<"content", T(<<98>>)>>>>, {"pattern", "content"}, [k |-> "Replace", p |-> <<97>>, c |-> <<98>>])
  \cup Norm1(<<Ty("Strip"), <<"strip_left", B(TRUE)>>, <<"strip_right", B(FALSE)>>>>, {"strip_left", "strip_right"}, [k |-> "Strip", left |-> TRUE, right |-> FALSE])
  \cup Pre1(<<Ty("BertPreTokenizer")>>, {}, [k |-> "Bert"])
  \cup UNION {Pre1(<<Ty("Split"), <<"pattern", Re(<<97, 43>>)>>, <<"behavior", J(b)>>, <<"invert", B(b = "Removed")>>>>, {"pattern", "behavior", "invert"},
       [k |-> "Split", re |-> [k |-> "rep", e |-> [k |-> "lit", s |-> <<97>>, ci |-> FALSE], min |-> 1, max |-> -1, mode |-> "greedy"], beh |-> b, inv |-> b = "Removed"]) : b \in Behaviours}
  \cup Pre1(<<Ty("ByteLevel"), <<"add_prefix_space", B(TRUE)>>, <<"use_regex", B(FALSE)>>>>, {"add_prefix_space"}, [k |-> "ByteLevel", prefix |-> TRUE, regex |-> FALSE])
  \cup {F("model", "one", <<Ty("WordPiece"), <<"unk_token", T(<<91>>)>>, <<"continuing_subword_prefix", T(<<35, 35>>)>>, <<"max_input_chars_per_word", I(11)>>, <<"vocab", VocabTree>>>>,
     {"type", "unk_token", "continuing_subword_prefix", "max_input_chars_per_word", "vocab"}, [k |-> "WordPiece", vocab |-> Vocab, unk |-> <<91>>, cont |-> <<35, 35>>, maxc |-> 11])}
  \cup {F("model", "one", <<Ty("BPE"), <<"dropout", Null0>>, <<"unk_token", u[1]>>, <<"continuing_subword_prefix", Null0>>, <<"end_of_word_suffix", T(<<60>>)>>, <<"fuse_unk", B(TRUE)>>, <<"byte_fallback", B(FALSE)>>,
            <<"ignore_merges", B(FALSE)>>, <<"vocab", VocabTree>>, <<"merges", A(<<T(<<97, 32, 98>>)>>)>>>>, {"type", "vocab", "merges"},
     [k |-> "BPE", vocab |-> Vocab, merges |-> <<<<97, 32, 98>>>>, drop |-> 0, unk |-> u[2], cont |-> <<>>, eow |-> <<60>>, fuse |-> TRUE, bf |-> FALSE, ign |-> FALSE]) : u \in {<<Null0, <<>>>>, <<T(<<91>>), <<91>>>>}}
  \cup Post1(<<Ty("TemplateProcessing"), <<"single", A(<<PieceTree("SpecialToken", <<67>>, 1), PieceTree("Sequence", <<65>>, 0)>>)>>, <<"pair", A(<<>>)>>,
              <<"special_tokens", K(<<<<<<67>>, SpecTree(<<67>>)>>>>)>>>>, {"single", "pair", "special_tokens"},
       [k |-> "Template", single |-> <<[sp |-> TRUE, id |-> <<67>>, type |-> 1], [sp |-> FALSE, id |-> <<65>>, type |-> 0]>>,
        specials |-> <<[id |-> <<67>>, ids |-> <<4, 5>>, toks |-> <<<<97>>, <<98>>>>]>>])
  \cup Post1(<<Ty("ByteLevel"), <<"add_prefix_space", B(TRUE)>>, <<"trim_offsets", B(FALSE)>>>>, {"add_prefix_space", "trim_offsets"}, [k |-> "ByteLevel", prefix |-> TRUE, trim |-> FALSE])
  \cup UNION {Dec1(<<Ty(n)>>, {}, [k |-> n]) : n \in {"ByteFallback", "Fuse", "ByteLevel"}}
  \cup Dec1(<<Ty("WordPiece"), <<"prefix", T(<<35, 233>>)>>, <<"cleanup", B(TRUE)>>>>, {"prefix", "cleanup"}, [k |-> "WordPiece", prefix |-> <<35, 195, 169>>, cleanup |-> TRUE])
  \cup Dec1(<<Ty("Replace"), <<"pattern", St(<<9601>>)>>, <<"content", T(<<32>>)>>>>, {"pattern", "content"}, [k |-> "Replace", p |-> <<226, 150, 129>>, c |-> <<32>>])
  \cup Dec1(<<Ty("Strip"), <<"content", T(<<32>>)>>, <<"start", I(1)>>, <<"stop", I(0)>>>>, {"content", "start", "stop"}, [k |-> "Strip", c |-> <<32>>, start |-> 1, stop |-> 0])

SectionNames == <<"truncation", "padding", "added_tokens", "normalizer", "pre_tokenizer", "post_processor", "decoder", "model">>
FieldOf == [s \in ToSet(SectionNames) |-> CASE s = "truncation" -> "trunc" [] s = "padding" -> "pad" [] s = "added_tokens" -> "added" [] s = "normalizer" -> "norm"
              [] s = "pre_tokenizer" -> "pre" [] s = "post_processor" -> "post" [] s = "decoder" -> "dec" [] s = "model" -> "model"]
Wrapped(c, obj) == IF c.wrap = "one" THEN obj ELSE IF c.wrap = "list" THEN A(<<obj>>) ELSE O(<<Ty("Sequence"), <<c.wrap, A(<<obj>>)>>>>)
Document(c, obj) == O([k \in 1..8 |-> <<SectionNames[k], IF SectionNames[k] = c.sec THEN Wrapped(c, obj) ELSE IF SectionNames[k] = "added_tokens" THEN A(<<>>) ELSE Null0>>])
Meaning(c) == Good([NoCfg EXCEPT ![FieldOf[c.sec]] = <<IF c.wrap \in {"one", "list"} THEN c.v ELSE [k |-> "Seq", l |-> <<c.v>>]>>])
WithField(c, k, v) == O([c.fields EXCEPT ![k] = <<@[1], v>>])
WithoutField(c, k) == O(SubSeq(c.fields, 1, k - 1) \o SubSeq(c.fields, k + 1, Len(c.fields)))
\* the flags of an added token when they are left out
Defaults == ("single_word" :> FALSE) @@ ("lstrip" :> FALSE) @@ ("rstrip" :> FALSE) @@ ("normalized" :> TRUE) @@ ("special" :> FALSE)
FlagOf == ("single_word" :> "sw") @@ ("lstrip" :> "ls") @@ ("rstrip" :> "rs") @@ ("normalized" :> "nz") @@ ("special" :> "sp")
Defaulted(c, k) == [c.v EXCEPT ![FlagOf[c.fields[k][1]]] = Defaults[c.fields[k][1]]]
Strangers == {B(FALSE), I(3), T(<<120>>), A(<<>>), K(<<>>)}
\* where another kind of value is right, too, or not spoken of
Lenient(c, k, v) == c.fields[k][2].t = "null" \/ c.fields[k][2].t = v.t \/ (c.fields[k][1] = "dropout")
Extra == <<<<120>>, K(<<<<<<120>>, I(1)>>>>), TRUE>>

-----------------------------------------------------------------------------

MCInit == Init /\ mode = "start" /\ subject = Null0
MCNext ==
  /\ UNCHANGED <<tks, last>> /\ mode = "start"
  /\ \/ mode' = "tree" /\ subject' \in Trees
     \/ mode' = "component" /\ subject' \in Components
MCSpec == MCInit /\ [][MCNext]_allvars

Drop1(l, k) == SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, Len(l))
\* JSON read is what was written, whatever the style; a part of it is nothing
RoundTrip == mode = "tree" => \A st \in Styles : ReadJson(Write(subject, st)) = <<subject>>
Structural == {<<91>>, <<93>>, <<123>>, <<125>>, <<58>>, <<44>>}
\* the tokens p with one thing wrong: cut short, a bracket, colon or comma less or more, something after or before
Damaged(p) ==
  {SubSeq(p, 1, k) : k \in 0..(Len(p) - 1)}
    \cup UNION {{Drop1(p, k), SubSeq(p, 1, k) \o SubSeq(p, k, Len(p))} : k \in {i \in 1..Len(p) : p[i] \in Structural}}
    \cup {p \o p, Append(p, <<44>>), <<<<44>>>> \o p}
Broken == mode = "tree" => \A q \in Damaged(PiecesOf(subject, Plain)) : ReadJson(Utf8(Text(q, <<32>>))) = <<>>

EvSrc(b) == [op |-> "new", src |-> b]
Cases ==
  mode = "component" =>
    LET obj == O(subject.fields)
        variants == {Write(Document(subject, obj), st) : st \in Styles}
                      \cup {Write(Document(subject, O(Reverse(subject.fields))), Plain), Write(Document(subject, [obj EXCEPT !.m = Append(@, Extra)]), Plain)}
                      \cup {Write(Document(subject, WithoutField(subject, k)), Plain) : k \in 1..Len(subject.fields)}
                      \cup {Write(Document(subject, WithField(subject, k, v)), Plain) : k \in 1..Len(subject.fields), v \in Strangers}
    IN \A b \in variants : Emit(<<EvSrc(b)>>)
\* the tree as the value of a field the specification does not know, right and wrong
InDocument(pieces, ws) == Utf8(<<123, 34, 120, 34, 58>> \o Text(pieces, ws) \o <<44>> \o Tail(Text(PiecesOf(Document([sec |-> ""], Null0), Plain), <<>>)))
TreeCases ==
  mode = "tree" =>
    LET sound == {InDocument(PiecesOf(subject, st), st.ws) : st \in Styles}
        unsound == {InDocument(q, <<32>>) : q \in Damaged(PiecesOf(subject, Plain))}
    IN /\ \A b \in sound : Configure(b) = Good(NoCfg)
       /\ \A b \in unsound : Configure(b) = Bad
       /\ Deep \/ Len(PiecesOf(subject, Plain)) < 7 => \A b \in sound \cup unsound : Emit(<<EvSrc(b)>>)

\* a component is honoured however it is written, whatever the order of its fields and whatever else is there
Honoured ==
  mode = "component" =>
    /\ \A st \in Styles : Configure(Write(Document(subject, O(subject.fields)), st)) = Meaning(subject)
    /\ Configure(Write(Document(subject, O(Reverse(subject.fields))), Plain)) = Meaning(subject)
    /\ Configure(Write(Document(subject, [O(subject.fields) EXCEPT !.m = Append(@, Extra)]), Plain)) = Meaning(subject)
\* a document without one of its sections, without a field the component must have, or with a value of the wrong kind is rejected
Rejected ==
  mode = "component" =>
    LET whole == Document(subject, O(subject.fields))
    IN /\ \A k \in 1..8 : Configure(Write([whole EXCEPT !.m = Drop1(@, k)], Plain)) = Bad
       /\ \A k \in 1..Len(subject.fields) :
            LET o == Configure(Write(Document(subject, WithoutField(subject, k)), Plain))
            IN o = IF subject.fields[k][1] \in subject.must THEN Bad ELSE IF subject.fields[k][1] \in DOMAIN Defaults THEN Meaning([subject EXCEPT !.v = Defaulted(subject, k)]) ELSE Free
       /\ \A k \in 1..Len(subject.fields), v \in Strangers :
            Lenient(subject, k, v) \/ Configure(Write(Document(subject, WithField(subject, k, v)), Plain)) = Bad
\* and something bad outweighs whatever is not specified
BadWins ==
  mode = "component" =>
    \A k \in 1..Len(subject.fields) : \A s \in ToSet(SectionNames) \ {subject.sec} :
      LET free == Document(subject, WithField(subject, k, Null0))
          bad == [free EXCEPT !.m = [i \in 1..8 |-> IF SectionNames[i] = s THEN <<@[i][1], I(1), TRUE>> ELSE @[i]]]
      IN Configure(Write(bad, Plain)) = Bad
=============================================================================
