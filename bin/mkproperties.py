#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "encode applies the configured stages in order, and nothing else",
  "For every configuration and text, encode returns exactly what the configured stages give when applied in this order: extraction of added tokens from the raw text, normalization of the rest, extraction of normalized added tokens, pre-tokenization, the model, truncation, post-processing, padding. A stage the configuration leaves null is the identity. Text claimed by an added token reaches the result as that one token: the normalizer, the pre-tokenizer and the model leave it alone.",
  ["inputs", "configurations"], "every tokenizer.json built from the supported components, every text, add_special_tokens on and off",
  "The end-to-end tests use one BERT configuration on one sentence, and are not even linked in this build; interactions between stages depend on the product of configurations and texts.",
  ["src/tokenizer.cpp", "src/added_vocabulary.cpp", "src/pre_tokenizer.cpp", "src/model.cpp"],
  [("Tokenizer::encode", "src/tokenizer.cpp"), ("Tokenizer::do_tokenize / into_encoding", "src/tokenizer.cpp"), ("Tokenizer::do_post_process", "src/tokenizer.cpp")],
  ["Tokenizer::encode"])

p("C02", "Every encoding is structurally coherent",
  "In every encoding returned by encode, and in every overflowing piece of it, ids, type_ids, tokens, words, offsets, special_tokens_mask and attention_mask all have the same length, and each token string is the one its id denotes (in the model vocabulary, the added tokens, the template or the padding; an unknown token missing from the vocabulary is reported as id 0). special_tokens_mask is 1 exactly on positions added by the post-processor or by padding, and attention_mask is 0 exactly on padding. words gives, for each token that comes from the text, the index of its pre-token, so it never decreases.",
  ["inputs", "configurations"], "every configuration, every text, every overflowing piece",
  "Tests compare a few literal encodings; the parallel arrays are maintained by hand in six places and a length mismatch in one of them only shows for particular combinations of truncation, template and padding.",
  ["src/tokenizer.cpp", "src/utils.cpp", "src/post_processor.cpp", "src/common.cpp"],
  [("into_encoding", "src/tokenizer.cpp"), ("truncate / pad", "src/utils.cpp"), ("TemplateProcessing::process", "src/post_processor.cpp")],
  ["Tokenizer::encode", "Truncation::truncate_encoding", "Padding::pad_encoding", "PostProcessor::process"])

p("C03", "Offsets locate each token in the original text",
  "The offsets of every token that comes from the text are a code-point range [start, end) of the text passed to encode: the smallest range covering the original characters that the token's characters were derived from, however the normalizer inserted, deleted, replaced, decomposed or recomposed characters and however the pre-tokenizer mapped them to bytes. Characters that a normalization form rewrites together (between two normalization boundaries) count as derived from all of them, and an inserted character is aligned with the original character(s) it was inserted for. Template and padding tokens have offsets (0, 0).",
  ["inputs", "configurations"], "every normalizer chain, pre-tokenizer, model and text, including characters outside the BMP and combining sequences",
  "No test checks offsets behind a normalizer that changes the text's length; alignment is state threaded through a chain of edits, and only particular sequences of edits corrupt it.",
  ["src/normalizer.cpp", "src/added_vocabulary.cpp", "src/pre_tokenizer.cpp", "src/tokenizer.cpp", "src/model.cpp"],
  [("NormalizedString alignment", "src/normalizer.cpp"), ("into_encoding", "src/tokenizer.cpp"), ("BPE::word_to_tokens / WordPiece::tokenize", "src/model.cpp")],
  ["Tokenizer::encode"], [dict(name="NormalizedString", meaning="normalized characters with the original range each came from", where="include/tokenizers/normalizer.h")])

p("C04", "Added tokens are recognised wherever they occur",
  "Scanning from the left, at every position the longest registered added token whose content starts there is taken and becomes exactly one token with its id, whatever surrounds it. Tokens marked not normalized are looked for in the raw text; normalized ones afterwards in each normalized remaining piece, by their normalized content (when two have the same one, the token of lowest id is meant). A single_word token is taken only when no letter, mark, decimal digit, letter number or connector punctuation touches it on either side within the piece searched, and lstrip / rstrip extend the token over the adjacent unclaimed whitespace on that side.",
  ["inputs", "configurations", "histories"], "every set of added tokens (overlapping, prefixes of each other, any flags), every text around them",
  "The only test uses five non-overlapping special tokens with all flags off, separated by spaces, in ASCII.",
  ["src/added_vocabulary.cpp"],
  [("AddedVocabulary::find_matches", "src/added_vocabulary.cpp"), ("AddedVocabulary::extract_and_normalize", "src/added_vocabulary.cpp"), ("AddedVocabulary::refresh_added_tokens", "src/added_vocabulary.cpp")],
  ["AddedVocabulary::extract_and_normalize", "Tokenizer::encode"])

p("C05", "Registering tokens gives stable, collision-free ids",
  "After any sequence of add_tokens / add_special_tokens calls, every registered content keeps the id it first got: the model's id when the model knows it, otherwise the smallest id above every id then in use, whatever id field the token itself carries. Each call returns the number of its tokens with non-empty content; from then on encode recognises them under the latest registered flags, decode maps the id back to the content, and a content ever registered with the special flag is skipped by decode when special tokens are skipped. Ids never come to denote a different content.",
  ["histories", "configurations"], "every model vocabulary and every sequence of registrations interleaved with encode and decode",
  "Tests register one list once and never look at ids; the id rule depends on the whole history and on the vocabulary.",
  ["src/added_vocabulary.cpp", "src/tokenizer.cpp"],
  [("AddedVocabulary::add_tokens", "src/added_vocabulary.cpp"), ("AddedVocabulary::id_to_token / is_special_token", "src/added_vocabulary.cpp"), ("Tokenizer::Tokenizer", "src/tokenizer.cpp")],
  ["Tokenizer::add_tokens", "Tokenizer::add_special_tokens", "Tokenizer::encode", "Tokenizer::decode", "AddedVocabulary"],
  [dict(name="added_tokens_map / added_tokens_map_r", meaning="content to id and id to token", where="include/tokenizers/added_vocabulary.h")])

p("C06", "NFC, NFD, NFKC and NFKD are the Unicode normal forms",
  "For every text, the NFC, NFD, NFKC and NFKD normalizers return the corresponding Unicode normalization form of the text: full canonical or compatibility decomposition, canonical reordering of combining marks, and for the C forms canonical composition (Hangul included). Text already in the form comes back unchanged.",
  ["inputs"], "every code-point sequence",
  "One two-character example per form is tested.",
  ["src/normalizer.cpp"], [("NFC/NFD/NFKC/NFKD::normalize", "src/normalizer.cpp")], ["Normalizer::normalize"])

p("C07", "BertNormalizer cleans, isolates CJK, strips accents and lowercases",
  "For every text, and each of its four switches independently: clean_text deletes NUL, U+FFFD and control or format characters (tab, LF and CR excepted) and turns every other whitespace character, tab, LF and CR included, into a space; handle_chinese_chars puts one space on each side of every character of the CJK ideograph ranges of BERT; strip_accents decomposes (NFD) and deletes non-spacing marks; lowercase maps every character to its simple (one to one) Unicode lowercase. They apply in that order, accents are stripped when strip_accents is true or is null while lowercase is true, and nothing depends on the process locale.",
  ["inputs", "configurations"], "every code point, every text, all switch combinations",
  "Four ASCII-or-Latin-1 example sentences are tested, one per switch; character classes have thousands of members and boundaries.",
  ["src/normalizer.cpp"], [("BertNormalizer::do_clean_text", "src/normalizer.cpp"), ("BertNormalizer::do_handle_chinese_chars / is_chinese_char", "src/normalizer.cpp"), ("BertNormalizer::do_strip_accents / do_lowercase", "src/normalizer.cpp")],
  ["Normalizer::normalize"])

p("C08", "Prepend, Replace, Strip, StripAccents and Sequence rewrite exactly",
  "For every text: Prepend puts its string before a non-empty text and leaves an empty text empty; Replace replaces every leftmost non-overlapping literal occurrence of its pattern by its content, of whatever length, and nothing else; Strip removes exactly the leading and/or trailing Unicode whitespace; StripAccents removes exactly the combining marks. Sequence applies its normalizers from first to last.",
  ["inputs", "configurations"], "every text, pattern, content and nesting of sequences",
  "One example per normalizer is tested, with one-character patterns and contents.",
  ["src/normalizer.cpp"], [("Prepend/Replace/Strip/StripAccents/SequenceNormalizer::normalize", "src/normalizer.cpp")], ["Normalizer::normalize"])

p("C09", "Bert and Split pre-tokenizers partition the text",
  "BertPreTokenizer removes every whitespace character, makes each punctuation character (Unicode punctuation and the ASCII symbols) a pre-token of its own, and keeps every other maximal run as one pre-token. Split cuts at the leftmost matches of its regular expression: Isolated keeps matches and gaps as separate pre-tokens, Removed keeps only the gaps, MergedWithPrevious joins each match to the gap before it and MergedWithNext to the one after it, Contiguous joins adjacent matches; with invert, matches and gaps change roles. Pre-tokens are non-empty, in text order, disjoint, and each one's text is the normalized text at its offsets; pre-tokens already claimed by an added token pass through unchanged, and Sequence applies its pre-tokenizers in order to the pieces left by the previous one.",
  ["inputs", "configurations"], "every text and pattern",
  "Three example sentences are tested; character classes, zero-width matches and text outside the BMP are not.",
  ["src/pre_tokenizer.cpp"], [("find_matches / split_normalized / PreTokenizedString::split", "src/pre_tokenizer.cpp"), ("BertPreTokenizer::pre_tokenize, SplitPreTokenizer::pre_tokenize", "src/pre_tokenizer.cpp")],
  ["PreTokenizer::pre_tokenize"])

p("C10", "Byte-level pre-tokenization is lossless and splits the GPT-2 way",
  "ByteLevel maps every byte of the UTF-8 text to its own printable character, one to one over all 256 bytes, after splitting by the GPT-2 pattern when use_regex is on (not splitting when it is off) and after inserting one space before each unclaimed piece that does not start with whitespace when add_prefix_space is on. Joining the pre-tokens of any well-formed text and decoding them with the ByteLevel decoder, in any grouping into tokens, gives back exactly that text (with the inserted space); characters outside the byte alphabet decode to themselves.",
  ["inputs"], "every text (all bytes), every grouping of the mapped characters into tokens",
  "Tests use one ASCII sentence and never turn use_regex on.",
  ["src/pre_tokenizer.cpp", "src/decoder.cpp", "src/common.cpp"], [("ByteLevelPreTokenizer::pre_tokenize", "src/pre_tokenizer.cpp"), ("ByteLevelDecoder::decode_chain", "src/decoder.cpp"), ("bytes_char", "src/common.cpp")],
  ["PreTokenizer::pre_tokenize", "Decoder::decode_chain"])

p("C11", "WordPiece is greedy longest-match-first",
  "For every vocabulary and word, WordPiece takes at each position the longest vocabulary entry that matches there (entries after the first position carry the continuing-subword prefix), so that the pieces, stripped of the prefix, spell the word. If at some position nothing matches, or the word has more characters than max_input_chars_per_word, the whole word becomes the single unknown token. Character counts and token ranges are in code points.",
  ["inputs", "configurations"], "every vocabulary, prefix, limit and word",
  "Tests use vocabularies of at most two entries, none with competing matches, and are not linked in this build.",
  ["src/model.cpp"], [("WordPiece::tokenize", "src/model.cpp")], ["Model::tokenize"])

p("C12", "BPE applies the merges in rank order until none applies",
  "For every vocabulary, merge list and word, the word is first cut into single characters (continuing_subword_prefix put before all but the first, end_of_word_suffix after the last; a character not in the vocabulary falls back to its byte tokens when byte_fallback is on and all are present, else to the unknown token, consecutive ones fused when fuse_unk is on, else is dropped), and then the applicable merge of lowest rank, leftmost first, is applied until no merge applies. With ignore_merges (and no dropout) a word that is itself in the vocabulary is returned whole; a dropout of 1 applies no merge, and one between 0 and 1 leaves a result that applying some of the applicable merges, in some order, leads to. Token ranges are in characters of the word.",
  ["inputs", "configurations", "histories"], "every vocabulary, merge table, option combination and word; cached or not",
  "Tests run three words, one of them with merges, whose result does not depend on the merge order; they are not linked in this build.",
  ["src/model.cpp", "include/tokenizers/model.h"], [("BPE::merge_word, Word::merge_all, Merge::operator<", "src/model.cpp, include/tokenizers/model.h"), ("BPE::tokenize_with_cache", "src/model.cpp")],
  ["Model::tokenize"], [dict(name="BPE::cache", meaning="word to merged symbols", where="include/tokenizers/model.h")])

p("C13", "Truncation bounds the length and loses no token",
  "With truncation configured, encode returns at most max_length tokens, special tokens included (unless the special tokens alone exceed it), and so does every overflowing piece. The pieces are the consecutive windows of the un-truncated tokens, taken from the end named by direction, each sharing exactly stride tokens with the one before it (the last may be shorter), so that every token appears in some piece; a text that fits is returned whole with no overflow, and when the limit leaves no room for text (0 after the special tokens) the encoding keeps none of it and its overflow is the whole text in one piece. A stride that leaves no room to advance is reported as an exception when truncation is needed, a negative length or stride is rejected, and OnlySecond leaves a single sequence alone.",
  ["inputs", "configurations"], "every length, max_length, stride, direction, strategy and number of special tokens",
  "Two examples (two tokens, limit 1, stride 0, from the right) are tested, and not linked in this build.",
  ["src/utils.cpp", "src/tokenizer.cpp", "src/post_processor.cpp"], [("truncate / Truncation::truncate_encoding", "src/utils.cpp"), ("Tokenizer::do_post_process", "src/tokenizer.cpp")],
  ["Truncation::truncate_encoding", "Tokenizer::encode"])

p("C14", "Post-processing inserts exactly the template's tokens",
  "Template processing returns the pieces of the single-sequence template in order: the sequence's tokens with the piece's type id and otherwise unchanged, and, when special tokens are requested, each special token's ids and tokens with the piece's type id, no word, offsets (0, 0), special mask 1 and attention 1; every overflowing piece is treated the same way. Byte-level processing with trim_offsets moves only offsets: inward over each token's leading and trailing spaces (one leading space of the first token, or of one whose offsets start at 0, stays when add_prefix_space is on), never past the other end. Sequence applies its processors in order.",
  ["inputs", "configurations"], "every template, encoding, overflow list and flag",
  "Four literal encodings without overflow are tested, and not linked in this build.",
  ["src/post_processor.cpp"], [("TemplateProcessing::process", "src/post_processor.cpp"), ("ByteLevelProcessing::process_offsets", "src/post_processor.cpp"), ("SequenceProcessing::process", "src/post_processor.cpp")],
  ["PostProcessor::process", "Tokenizer::encode"])

p("C15", "Padding extends to the configured length and changes nothing else",
  "Padding brings an encoding, and each of its overflowing pieces, to the fixed size, or with BatchLongest to the encoding's own length, rounded up to a multiple of pad_to_multiple_of when that is set, by adding on the configured side only positions that carry pad_id, pad_type_id, pad_token, word 0, offsets (0, 0), special mask 1 and attention 0. An encoding or piece already that long or longer is returned unchanged, and the existing positions are never altered.",
  ["inputs", "configurations"], "every length, target, multiple, direction and overflow list",
  "Two examples, both padded on the right and without overflow, are tested, and not linked in this build.",
  ["src/utils.cpp"], [("pad / Padding::pad_encoding", "src/utils.cpp")], ["Padding::pad_encoding", "Tokenizer::encode"])

p("C16", "decode maps ids to text through the configured decoders",
  "decode looks every id up in the added tokens, then in the model vocabulary, skips ids it does not know and, on request, special tokens, passes the remaining token strings in order through the decoder, and joins the result (with spaces when no decoder is configured). WordPiece drops the prefix of a continuation token and puts a space before any other but the first, then applies the clean-up replacements when cleanup is on; Replace substitutes every literal occurrence; ByteFallback turns each run of <0xNN> tokens into the text those bytes encode, or one U+FFFD per byte when they are not valid UTF-8; Fuse joins all tokens into one; Strip removes at most start leading and stop trailing copies of its character. Sequence applies its decoders in order.",
  ["inputs", "configurations"], "every id sequence, vocabulary, decoder chain and skip flag",
  "Tests decode four short token lists with two decoders; decode itself is never called by a test.",
  ["src/tokenizer.cpp", "src/decoder.cpp"], [("Tokenizer::decode", "src/tokenizer.cpp"), ("decode_chain of each decoder, cleanup_token", "src/decoder.cpp")],
  ["Tokenizer::decode", "Decoder::decode_chain"])

p("C17", "Configurations are honoured faithfully or rejected",
  "A tokenizer built from a tokenizer.json behaves according to every value in it, independently of key order, whitespace, JSON string escapes (in values and in vocabulary tokens) and of whether it is given as a string or as a directory. A configuration that as a whole is not JSON, lacks a section or a field its component requires, or gives a section or field a value of the wrong kind makes construction throw a standard exception, as do a number that does not fit an int, a negative length, an invalid regular expression, an unknown Split behavior, an unknown truncation or padding direction or strategy, and a template that uses a special token it does not define or whose ids and tokens differ in number. A flag left out of an added token has its default (normalized true, the others false). What null means where a value is required, component types the tokenizer does not have, and fields it does not use are left open. Constructing with neither path nor configuration throws std::invalid_argument.",
  ["configurations", "inputs"], "every JSON rendering of every supported configuration; every malformed one",
  "Tests load a handful of literal JSON strings in canonical key order without escapes.",
  ["src/tokenizer.cpp", "src/utils.cpp", "src/normalizer.cpp", "src/pre_tokenizer.cpp", "src/model.cpp", "src/post_processor.cpp", "src/decoder.cpp", "src/added_vocabulary.cpp"],
  [("Tokenizer::Tokenizer", "src/tokenizer.cpp"), ("with_* factories", "src/*.cpp"), ("get_map_ints_from_json", "src/utils.cpp")],
  ["Tokenizer::Tokenizer", "Tokenizer::encode", "Tokenizer::decode"])

p("C18", "encode and decode leave no trace",
  "The result of encode or decode depends only on the configuration, the tokens registered so far and the arguments: repeating a call, or making any other encode or decode calls before it on the same or on another tokenizer, never changes it. In particular a word served from a cache is tokenized exactly as if it were met for the first time.",
  ["histories"], "every sequence of calls on one or several tokenizers",
  "Every test makes one call on a fresh object; a stale or colliding cache needs a history.",
  ["src/model.cpp", "src/tokenizer.cpp", "src/added_vocabulary.cpp"], [("BPE::tokenize_with_cache", "src/model.cpp"), ("Tokenizer::encode / decode", "src/tokenizer.cpp")],
  ["Tokenizer::encode", "Tokenizer::decode"], [dict(name="BPE::cache", meaning="mutable state behind a const interface", where="include/tokenizers/model.h")])

p("C19", "Concurrent encode and decode calls do not interfere",
  "Any number of threads may call encode and decode at the same time, on one tokenizer or on several: every call returns what it returns when made alone, and there is no data race.",
  ["schedules", "histories"], "every interleaving of encode/decode calls from several threads",
  "No test starts a thread.",
  ["src/model.cpp", "src/tokenizer.cpp", "src/added_vocabulary.cpp", "src/normalizer.cpp", "src/pre_tokenizer.cpp"], [("BPE::tokenize_with_cache", "src/model.cpp"), ("find_matches", "src/added_vocabulary.cpp")],
  ["Tokenizer::encode", "Tokenizer::decode"], [dict(name="BPE::cache", meaning="shared mutable map", where="include/tokenizers/model.h")])

p("C20", "Every call returns or throws: no input crashes or hangs it",
  "For every configuration that is accepted and every text (empty, whitespace only, control characters, code points outside the BMP, invalid code points, very long words) or id sequence (unknown, negative), encode, decode and token registration end, without undefined behaviour, by returning a result or throwing a standard exception; for well-formed text and configurations whose stride leaves room they return.",
  ["inputs", "configurations", "histories"], "every accepted configuration, text, id list and call sequence",
  "Tests never use empty or degenerate inputs, and run without sanitizers.",
  ["src/tokenizer.cpp", "src/normalizer.cpp", "src/pre_tokenizer.cpp", "src/model.cpp", "src/utils.cpp", "src/added_vocabulary.cpp", "src/decoder.cpp", "src/post_processor.cpp"],
  [("bounds and termination conditions of every loop", "src/*.cpp")], ["Tokenizer::encode", "Tokenizer::decode", "Tokenizer::add_tokens"])

p("C21", "The Android binding is the library for Java strings",
  "Through xyz.omkar.tokenizers.Tokenizer every call means what the library's own call means for the same text. A Java string denotes the text whose UTF-16 it is: the constructor succeeds exactly for configurations the library accepts, encode returns exactly the library's ids for the text (characters outside the BMP and U+0000 included), and decode returns exactly the Java string of the library's decoded text. A call the library answers with an exception, and a null argument, throws a Java exception; no call ends the virtual machine, writes to its arguments, or lets threads that share a tokenizer see other results. (Unpaired surrogates and decoded bytes that are not UTF-8 have no exact counterpart: there only the last part is said.)",
  ["inputs", "configurations", "histories", "schedules"], "every configuration, Java string, id list, flag and sequence of calls, one or many threads",
  "No test runs the binding; it has its own string conversions in each direction and its own failures.",
  ["android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp", "android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java"],
  [("a jstring is UTF-16, the library's texts are code points and UTF-8; exceptions do not cross the boundary", "tokenizers_android_jni.cpp")],
  ["xyz.omkar.tokenizers.Tokenizer.<init>", "xyz.omkar.tokenizers.Tokenizer.encode", "xyz.omkar.tokenizers.Tokenizer.decode"])

p("C22", "The library's parts mean the same on their own",
  "The parts a tokenizer is made of are public, and each means on its own what it means inside one: a normalizer, pre-tokenizer, model, decoder, post-processor, truncation or padding made by its constructor (arguments left out having their documented defaults) computes what the one a configuration describes computes; a model answers token_to_id, id_to_token and get_vocab_size from exactly its vocabulary; an AddedVocabulary of one's own, filled in any grouping of any tokens, reports, names and finds them by the rules of registration and recognition; PreTokenizedString.split with any rule, Word.merge_all with any table of merges, the UTF-8 conversions with any text, and the byte table of byte-level tokenizers give what the rules of splitting, merging, UTF-8 and byte-level tokenization say; and a tokenizer that is moved goes on as before.",
  ["inputs", "configurations", "histories"], "every component, number of constructor arguments, input, table, rule and history of registrations",
  "Tests call a few parts with one or two inputs each, and the defaults and public helpers hardly at all.",
  ["include/tokenizers/model.h", "include/tokenizers/added_vocabulary.h", "include/tokenizers/pre_tokenizer.h", "include/tokenizers/normalizer.h", "include/tokenizers/utils.h", "src/common.cpp", "src/model.cpp", "src/added_vocabulary.cpp", "src/pre_tokenizer.cpp", "src/utils.cpp"],
  [("vocab and vocab_r are each other's inverse", "src/model.cpp"), ("defaults of constructor arguments", "include/tokenizers/*.h")],
  ["Model::token_to_id", "Model::id_to_token", "AddedVocabulary::add_tokens", "AddedVocabulary::find_matches", "PreTokenizedString::split", "Word::merge_all", "convert_to_string"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(r, ensure_ascii=False) + '\n' for r in P))
