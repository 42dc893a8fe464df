From b4d0a34e73e235a6903d2eb0dbb12e518cd274f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 01/47] fix: unescape JSON keys of vocab, template pieces,
 padding strategy and added tokens

escaped_key() returns the raw JSON text of the key, so a vocabulary entry such
as "\"" or "\u00e9" was registered under its escaped spelling and never matched.
---
 src/added_vocabulary.cpp | 2 +-
 src/post_processor.cpp   | 4 ++--
 src/utils.cpp            | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index d7f86b5..34381f7 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -327,7 +327,7 @@ std::unique_ptr<AddedVocabulary> with_added_vocabulary(
     simdjson::ondemand::object added_token_param = val.get_object();
     AddedToken added_token;
     for (auto element : added_token_param) {
-      auto key = element.escaped_key();
+      auto key = element.unescaped_key();
       if (key.value() == "id") {
         added_token.id = static_cast<int>(element.value().get_int64());
       } else if (key.value() == "content") {
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 135c730..a0b78d8 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -53,7 +53,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
@@ -70,7 +70,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
diff --git a/src/utils.cpp b/src/utils.cpp
index 8d1c6f4..efd6d54 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -255,7 +255,7 @@ std::unique_ptr<Padding> with_padding(
       simdjson::ondemand::object strategy_obj = val.get_object().value();
       for (auto field : strategy_obj) {
         strategy =
-            std::string(static_cast<std::string_view>(field.escaped_key()));
+            std::string(static_cast<std::string_view>(field.unescaped_key()));
         fixed_size = static_cast<int>(field.value().get_int64());
       }
     } else {
@@ -289,7 +289,7 @@ std::unordered_map<std::string, int> get_map_ints_from_json(
   std::unordered_map<std::string, int> result;
   for (auto element : json_object) {
     result.insert(
-        {std::string(static_cast<std::string_view>(element.escaped_key())),
+        {std::string(static_cast<std::string_view>(element.unescaped_key())),
          static_cast<int>(element.value().get_int64())});
   }
   return result;
-- 
2.43.0


From 902c9516842a0c26581a073ed66f6b4acfa22d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 02/47] fix: look up whole characters in the ByteLevel decoder

The lookup used the low byte of each UTF-16 unit, so every byte whose printable
stand-in is not ASCII (spaces, newlines, all of UTF-8 beyond ASCII) was decoded
to garbage.
---
 src/decoder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 65b6665..3653dd6 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -203,13 +203,15 @@ std::vector<std::string> ByteLevelDecoder::decode_chain(
   std::string result;
   for (const auto& token : tokens) {
     icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);
-    for (int i = 0; i < unicode_token.length(); i++) {
-      auto ch = unicode_token.char32At(i);
-      auto it = CHAR_BYTES.find(std::string(1, ch));
+    for (int i = 0; i < unicode_token.length();
+         i = unicode_token.moveIndex32(i, 1)) {
+      std::string token_char;
+      icu::UnicodeString(unicode_token.char32At(i)).toUTF8String(token_char);
+      auto it = CHAR_BYTES.find(token_char);
       if (it != CHAR_BYTES.end()) {
         result.push_back(static_cast<char>(it->second));
       } else {
-        result.push_back(ch);
+        result += token_char;
       }
     }
   }
-- 
2.43.0


From 393e08726d1af3f9fd2e974ce0efdf9ff544939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 03/47] fix: decode with Replace, ByteFallback, Fuse and Strip

These four decoders are listed as supported and accepted from tokenizer.json,
but returned an empty list, so decode returned an empty string.
---
 src/decoder.cpp | 66 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 3653dd6..628c1c5 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -3,9 +3,12 @@
 
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
+#include <unicode/utf8.h>
 
+#include <cctype>
 #include <iostream>
 #include <memory>
+#include <numeric>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -155,21 +158,62 @@ ReplaceDecoder::ReplaceDecoder(const std::string& pattern,
 
 std::vector<std::string> ReplaceDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  if (!pattern.empty()) {
+    for (std::string& token : tokens) {
+      token = replace(token, pattern, content);
+    }
+  }
+  return tokens;
 }
 
 ByteFallbackDecoder::ByteFallbackDecoder() {}
 
+bool is_valid_utf8(const std::string& bytes) {
+  int i = 0, length = bytes.length();
+  while (i < length) {
+    UChar32 c;
+    U8_NEXT(bytes.data(), i, length, c);
+    if (c < 0) {
+      return false;
+    }
+  }
+  return true;
+}
+
 std::vector<std::string> ByteFallbackDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::vector<std::string> result;
+  std::string bytes;
+  auto flush_bytes = [&result, &bytes]() {
+    if (is_valid_utf8(bytes)) {
+      if (!bytes.empty()) {
+        result.push_back(bytes);
+      }
+    } else {
+      result.insert(result.end(), bytes.length(), "\xEF\xBF\xBD");
+    }
+    bytes.clear();
+  };
+  for (const std::string& token : tokens) {
+    if (token.length() == 6 && token.rfind("<0x", 0) == 0 && token[5] == '>' &&
+        std::isxdigit(static_cast<unsigned char>(token[3])) &&
+        std::isxdigit(static_cast<unsigned char>(token[4]))) {
+      bytes.push_back(
+          static_cast<char>(std::stoi(token.substr(3, 2), nullptr, 16)));
+    } else {
+      flush_bytes();
+      result.push_back(token);
+    }
+  }
+  flush_bytes();
+  return result;
 }
 
 FuseDecoder::FuseDecoder() {}
 
 std::vector<std::string> FuseDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  return {std::accumulate(tokens.begin(), tokens.end(), std::string{})};
 }
 
 StripDecoder::StripDecoder(const std::string& content, int start, int stop)
@@ -177,7 +221,21 @@ StripDecoder::StripDecoder(const std::string& content, int start, int stop)
 
 std::vector<std::string> StripDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  if (content.empty()) {
+    return tokens;
+  }
+  for (std::string& token : tokens) {
+    for (int i = 0; i < start && token.rfind(content, 0) == 0; i++) {
+      token.erase(0, content.length());
+    }
+    for (int i = 0; i < stop && token.length() >= content.length() &&
+                    token.compare(token.length() - content.length(),
+                                  content.length(), content) == 0;
+         i++) {
+      token.erase(token.length() - content.length());
+    }
+  }
+  return tokens;
 }
 
 SequenceDecoder::SequenceDecoder(std::vector<std::unique_ptr<Decoder>> decoders)
-- 
2.43.0


From 162a1deac1a4367692bb5a86bbe00902dce073d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 04/47] fix: apply the BPE merge of lowest rank first

The priority queue popped the merge of the highest rank, so words with competing
merges were tokenized differently from the trained model.
---
 include/tokenizers/model.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 1690ece..04d0b5a 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -67,7 +67,10 @@ class Merge {
   int rank;
   int new_id;
   Merge(int pos, int rank, int new_id);
-  bool operator<(const Merge &other) const { return rank < other.rank; }
+  // std::priority_queue pops the greatest: the lowest rank, then the leftmost
+  bool operator<(const Merge &other) const {
+    return rank != other.rank ? rank > other.rank : pos > other.pos;
+  }
 };
 
 struct PairHash {
-- 
2.43.0


From f8cfe0a34d9e06f60a1f13fce90d1396819ebf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 05/47] fix: do not read past an empty BPE word

size() - 1 wraps around when no character of the word has a symbol.
---
 src/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index 9d5850c..0f5046a 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -229,7 +229,7 @@ void Word::merge_all(
     float dropout) {
   std::priority_queue<Merge> queue;
   std::vector<Merge> skip;
-  for (int i = 0; i < symbols.size() - 1; i++) {
+  for (int i = 0; i + 1 < symbols.size(); i++) {
     std::pair<int, int> pair = {symbols[i].c, symbols[i + 1].c};
     auto it = merges.find(pair);
     if (it != merges.end()) {
-- 
2.43.0


From 87e23c1d02caf8710ce9aa19f9ec1d0f5eba617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 06/47] fix: cut BPE words into characters, not bytes

A multi-byte character was looked up one byte at a time and could never be found,
token ranges counted bytes instead of characters, and a dropped character shifted
the range of every token after it.
---
 include/tokenizers/model.h |  5 +++--
 src/model.cpp              | 40 ++++++++++++++++++--------------------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 04d0b5a..cffd216 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -56,8 +56,9 @@ class Symbol {
   int c;
   int prev;
   int next;
+  int pos;
   int len;
-  Symbol(int c, int prev, int next, int len);
+  Symbol(int c, int prev, int next, int pos, int len);
   void merge_with(const Symbol *other, int new_c);
 };
 
@@ -87,7 +88,7 @@ class Word {
   std::vector<Symbol> symbols;
   Word() = default;
   explicit Word(const std::vector<Symbol> &symbols);
-  void add(int c, int len);
+  void add(int c, int pos, int len);
   void merge_all(
       std::unordered_map<std::pair<int, int>, std::pair<int, int>, PairHash>
           merges,
diff --git a/src/model.cpp b/src/model.cpp
index 0f5046a..e1f22e9 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -3,6 +3,7 @@
 
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
+#include <unicode/utf8.h>
 
 #include <iostream>
 #include <memory>
@@ -198,12 +199,12 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   return pre_tokenized;
 }
 
-Symbol::Symbol(int c, int prev, int next, int len)
-    : c(c), prev(prev), next(next), len(len) {}
+Symbol::Symbol(int c, int prev, int next, int pos, int len)
+    : c(c), prev(prev), next(next), pos(pos), len(len) {}
 
 void Symbol::merge_with(const Symbol* other, int new_c) {
   c = new_c;
-  len += other->len;
+  len = other->pos + other->len - pos;
   next = other->next;
 }
 
@@ -212,7 +213,7 @@ Merge::Merge(int pos, int rank, int new_id)
 
 Word::Word(const std::vector<Symbol>& symbols) : symbols(symbols) {}
 
-void Word::add(int c, int len) {
+void Word::add(int c, int pos, int len) {
   int prev = -1, next = -1;
   int cur_len = symbols.size();
   if (!symbols.empty()) {
@@ -220,7 +221,7 @@ void Word::add(int c, int len) {
     last.next = cur_len;
     prev = cur_len - 1;
   }
-  symbols.emplace_back(Symbol(c, prev, next, len));
+  symbols.emplace_back(Symbol(c, prev, next, pos, len));
 }
 
 void Word::merge_all(
@@ -338,14 +339,13 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
 Word BPE::merge_word(std::string sequence) const {
   int length = sequence.size();
   Word word;
-  std::optional<std::pair<int, int>> unk;
-  for (int i = 0; i < length; i++) {
-    int end = (i + 1 < length) ? i + 1 : length;
+  std::optional<Symbol> unk;
+  for (int i = 0, end = 0, pos = 0; i < length; i = end, pos++) {
+    U8_FWD_1(sequence, end, length);
     bool is_first = (i == 0);
     bool is_last = (end == length);
 
     std::string sub_sequence = sequence.substr(i, end - i);
-    int sub_len = sub_sequence.length();
 
     if (!is_first && continuing_subword_prefix.size() != 0) {
       sub_sequence = (continuing_subword_prefix + sub_sequence);
@@ -358,10 +358,10 @@ Word BPE::merge_word(std::string sequence) const {
     auto it = vocab.find(sub_sequence);
     if (it != vocab.end()) {
       if (unk.has_value()) {
-        word.add(unk->first, unk->second);
+        word.add(unk->c, unk->pos, unk->len);
         unk.reset();
       }
-      word.add(it->second, sub_len);
+      word.add(it->second, pos, 1);
     } else {
       if (byte_fallback) {
         std::vector<std::optional<int>> tokens;
@@ -378,7 +378,7 @@ Word BPE::merge_word(std::string sequence) const {
         bool added = false;
         for (auto& token : tokens) {
           if (token.has_value()) {
-            word.add(token.value(), 1);
+            word.add(token.value(), pos, 1);
             added = true;
           }
         }
@@ -387,21 +387,21 @@ Word BPE::merge_word(std::string sequence) const {
       }
       if (unk_token.size() != 0) {
         if (unk.has_value() && fuse_unk) {
-          unk = {unk->first, unk->second + sub_len};
+          unk->len = pos + 1 - unk->pos;
         } else {
           if (unk.has_value()) {
-            word.add(unk->first, unk->second);
+            word.add(unk->c, unk->pos, unk->len);
           }
           auto unk_it = vocab.find(unk_token);
           if (unk_it != vocab.end()) {
-            unk = {unk_it->second, sub_len};
+            unk = Symbol(unk_it->second, -1, -1, pos, 1);
           }
         }
       }
     }
   }
   if (unk.has_value()) {
-    word.add(unk->first, unk->second);
+    word.add(unk->c, unk->pos, unk->len);
   }
   word.merge_all(merges, dropout);
   return word;
@@ -409,11 +409,9 @@ Word BPE::merge_word(std::string sequence) const {
 
 std::vector<Token> BPE::word_to_tokens(const Word& word) const {
   std::vector<Token> result;
-  int pos = 0;
-  for (auto symbol : word.symbols) {
-    int new_pos = pos + symbol.len;
-    result.push_back(Token(symbol.c, vocab_r.at(symbol.c), {pos, new_pos}));
-    pos = new_pos;
+  for (const auto& symbol : word.symbols) {
+    result.push_back(Token(symbol.c, vocab_r.at(symbol.c),
+                           {symbol.pos, symbol.pos + symbol.len}));
   }
   return result;
 }
-- 
2.43.0


From 45f373d9e293c4838af27a0436863145f4346126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 07/47] fix: look up BPE byte fallback tokens as <0xNN>

The byte was printed as a character, so no byte token was ever found; a character
falls back to its byte tokens only when all of them exist, and after the unknown
tokens that precede it.
---
 src/model.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index e1f22e9..d0a387b 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -5,6 +5,7 @@
 #include <unicode/unistr.h>
 #include <unicode/utf8.h>
 
+#include <iomanip>
 #include <iostream>
 #include <memory>
 #include <optional>
@@ -364,26 +365,27 @@ Word BPE::merge_word(std::string sequence) const {
       word.add(it->second, pos, 1);
     } else {
       if (byte_fallback) {
-        std::vector<std::optional<int>> tokens;
-        for (auto b : sub_sequence) {
+        std::vector<int> tokens;
+        for (unsigned char b : sub_sequence) {
           std::ostringstream oss;
-          oss << "<" << std::hex << std::setw(4) << std::setfill('0') << b
-              << ">";
-          auto code = oss.str();
-          auto token_it = vocab.find(code);
-          tokens.push_back((token_it != vocab.end())
-                               ? std::optional<int>(token_it->second)
-                               : std::nullopt);
-        }
-        bool added = false;
-        for (auto& token : tokens) {
-          if (token.has_value()) {
-            word.add(token.value(), pos, 1);
-            added = true;
+          oss << "<0x" << std::hex << std::uppercase << std::setw(2)
+              << std::setfill('0') << static_cast<int>(b) << ">";
+          auto token_it = vocab.find(oss.str());
+          if (token_it == vocab.end()) {
+            break;
           }
+          tokens.push_back(token_it->second);
         }
-        if (added)
+        if (tokens.size() == sub_sequence.size()) {
+          if (unk.has_value()) {
+            word.add(unk->c, unk->pos, unk->len);
+            unk.reset();
+          }
+          for (int token : tokens) {
+            word.add(token, pos, 1);
+          }
           continue;
+        }
       }
       if (unk_token.size() != 0) {
         if (unk.has_value() && fuse_unk) {
-- 
2.43.0


From 7795526d92818254b89ca42429028090608a1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 08/47] fix: give a BPE word taken whole the range of the word

With ignore_merges a word found in the vocabulary had the empty range (0, 0).
---
 src/model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index d0a387b..cbc4167 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -422,7 +422,8 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   if (ignore_merges) {
     auto it = vocab.find(sequence);
     if (it != vocab.end()) {
-      return {Token(it->second, sequence, {0, 0})};
+      int length = icu::UnicodeString::fromUTF8(sequence).countChar32();
+      return {Token(it->second, sequence, {0, length})};
     }
   }
   auto it = cache.find(sequence);
-- 
2.43.0


From 74489922a55a570aa1602544e06a3ffc9cfa537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 09/47] fix: split a BPE merge at its space only

Reading the parts with >> dropped merges of tokens that hold other whitespace,
such as "\\n \\n".
---
 src/model.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index cbc4167..a3d3e91 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -317,9 +317,10 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
       cache({}) {
   int prefix_len = continuing_subword_prefix.length();
   for (int i = 0; i < merges_list.size(); ++i) {
-    std::istringstream iss(merges_list[i]);
-    std::string part1, part2;
-    if (iss >> part1 >> part2) {
+    size_t separator = merges_list[i].find(' ');
+    if (separator != std::string::npos) {
+      std::string part1 = merges_list[i].substr(0, separator);
+      std::string part2 = merges_list[i].substr(separator + 1);
       auto it1 = vocab.find(part1);
       auto it2 = vocab.find(part2);
       if (it1 != vocab.end() && it2 != vocab.end()) {
-- 
2.43.0


From b8bb71f0f2fd763cd52899cf23dd9d9789497393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 10/47] fix: leave added tokens alone in the models

A split already claimed by an added token was tokenized again by the model and
lost its token.
---
 src/model.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model.cpp b/src/model.cpp
index a3d3e91..e828d31 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -144,6 +144,9 @@ WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
 
 PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     icu::UnicodeString unicode_sequence =
         icu::UnicodeString::fromUTF8(split.normalized);
     int char_len = unicode_sequence.length();
@@ -439,6 +442,9 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
 
 PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     std::string sequence = split.normalized;
     if (dropout == 0.0f) {
       split.tokens = tokenize_with_cache(sequence);
-- 
2.43.0


From 0f0fd6cbba63c78227a2cf9321a21a672403e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 11/47] fix: guard the BPE cache against concurrent encodes

encode may be called from several threads; the cache was read and written
without synchronization.
---
 include/tokenizers/model.h |  2 ++
 src/model.cpp              | 14 ++++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index cffd216..c9fbd2f 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -3,6 +3,7 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -115,6 +116,7 @@ class BPE : public Model {
 
  private:
   mutable std::unordered_map<std::string, Word> cache;
+  std::shared_ptr<std::mutex> cache_mutex;
   Word merge_word(std::string sequence) const;
   std::vector<Token> word_to_tokens(const Word &word) const;
   std::vector<Token> tokenize_with_cache(const std::string &sequence) const;
diff --git a/src/model.cpp b/src/model.cpp
index e828d31..3660598 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -8,6 +8,7 @@
 #include <iomanip>
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <queue>
 #include <random>
@@ -317,7 +318,8 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
       fuse_unk(fuse_unk),
       byte_fallback(byte_fallback),
       ignore_merges(ignore_merges),
-      cache({}) {
+      cache({}),
+      cache_mutex(std::make_shared<std::mutex>()) {
   int prefix_len = continuing_subword_prefix.length();
   for (int i = 0; i < merges_list.size(); ++i) {
     size_t separator = merges_list[i].find(' ');
@@ -430,12 +432,16 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
       return {Token(it->second, sequence, {0, length})};
     }
   }
-  auto it = cache.find(sequence);
-  if (it != cache.end()) {
-    return word_to_tokens(it->second);
+  {
+    std::lock_guard<std::mutex> lock(*cache_mutex);
+    auto it = cache.find(sequence);
+    if (it != cache.end()) {
+      return word_to_tokens(it->second);
+    }
   }
   auto word = merge_word(sequence);
   auto result = word_to_tokens(word);
+  std::lock_guard<std::mutex> lock(*cache_mutex);
   cache.insert({sequence, word});
   return result;
 }
-- 
2.43.0


From f6a791b70af6c7d14ba542ac69f2eb7c64a94085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 12/47] fix: count WordPiece characters in code points

Lengths and token ranges were in UTF-16 units, so a character outside the BMP
counted twice, was cut in half, and shifted every range after it.
---
 src/model.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index 3660598..af79aec 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -148,9 +148,8 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
     if (!split.tokens.empty()) {
       continue;
     }
-    icu::UnicodeString unicode_sequence =
-        icu::UnicodeString::fromUTF8(split.normalized);
-    int char_len = unicode_sequence.length();
+    std::wstring sequence = convert_from_string(split.normalized);
+    int char_len = sequence.length();
     if (char_len > max_input_chars_per_word) {
       auto it = vocab.find(unk_token);
       if (it == vocab.end()) {
@@ -163,14 +162,12 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
     bool is_bad = false;
     int start = 0;
     std::vector<Token> sub_tokens;
-    while (start < unicode_sequence.length()) {
-      int end = unicode_sequence.length();
+    while (start < char_len) {
+      int end = char_len;
       std::optional<Token> cur_sequence_token = std::nullopt;
       while (start < end) {
-        std::string sub_sequence;
-        icu::UnicodeString unicode_sub_sequence =
-            unicode_sequence.tempSubString(start, end - start);
-        unicode_sub_sequence.toUTF8String(sub_sequence);
+        std::string sub_sequence =
+            convert_to_string(sequence.substr(start, end - start));
         if (start > 0) {
           sub_sequence = continuing_subword_prefix + sub_sequence;
         }
-- 
2.43.0


From 1e8df9fab3997014a3e2a964e9bf29f0674b9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 13/47] fix: keep the alignment of every normalized character

Offsets were kept per UTF-8 byte and patched in place after each normalization.
Erasing, growing and shrinking used stale indices (reading out of bounds on an
empty or shortened text), NFC and NFD guessed which characters had changed, Strip
and StripAccents kept the offsets of the text they removed, Replace invalidated
the iterator it was reading and treated its literal pattern as a regular
expression, ByteLevel dropped the added tokens when it inserted its space and
threw on bytes above 0x7F, and a token's end was its start plus its length.

Keep one original range per character, build the normalized text together with
its ranges, and map both ends of a token.
---
 include/tokenizers/added_vocabulary.h |   3 +
 include/tokenizers/normalizer.h       |   9 +-
 include/tokenizers/pre_tokenizer.h    |   2 +
 src/added_vocabulary.cpp              |  91 ++----
 src/normalizer.cpp                    | 440 +++++++-------------------
 src/pre_tokenizer.cpp                 |  53 +++-
 src/tokenizer.cpp                     |  15 +-
 7 files changed, 192 insertions(+), 421 deletions(-)

diff --git a/include/tokenizers/added_vocabulary.h b/include/tokenizers/added_vocabulary.h
index 076d25b..c1fb979 100644
--- a/include/tokenizers/added_vocabulary.h
+++ b/include/tokenizers/added_vocabulary.h
@@ -57,6 +57,9 @@ class AddedVocabulary {
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> find_matches(
       std::string sentence,
       std::pair<std::vector<std::string>, std::vector<int>> split_re);
+  void extract(
+      PreTokenizedString *pre_tokenized,
+      const std::pair<std::vector<std::string>, std::vector<int>> &split_re);
 };
 
 std::unique_ptr<AddedVocabulary> with_added_vocabulary(
diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 8031913..cc15708 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -37,14 +37,15 @@ NORMALIZER get_normalizer(std::string type);
 class NormalizedString {
  public:
   std::wstring normalized;
+  // the range of the original text each character of normalized comes from
   std::vector<std::pair<int, int>> offsets;
-  std::vector<std::pair<int, int>> offset_ranges;
   explicit NormalizedString(std::wstring normalized);
   NormalizedString(std::wstring normalized,
                    const std::vector<std::pair<int, int>> &offsets);
-  void transform(int i, std::string op, int n);
-  void transform_range(std::pair<int, int> original_offsets,
-                       NormalizedString sub_normalized);
+  void append(const std::wstring &content, std::pair<int, int> offset);
+  void append(const NormalizedString &other);
+  NormalizedString slice(int start, int end) const;
+  std::pair<int, int> original_range(int start, int end) const;
 };
 
 class Normalizer {
diff --git a/include/tokenizers/pre_tokenizer.h b/include/tokenizers/pre_tokenizer.h
index 8a86ce5..26517ff 100644
--- a/include/tokenizers/pre_tokenizer.h
+++ b/include/tokenizers/pre_tokenizer.h
@@ -42,6 +42,8 @@ class PreTokenizedString {
                  icu::UnicodeString)>
                  split_fn,
              SPLIT_DELIMITER_BEHAVIOR pattern);
+  void normalize(
+      std::function<NormalizedString(const NormalizedString &)> normalize_fn);
 };
 
 class PreTokenizer {
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 34381f7..13c6d6d 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -249,75 +249,38 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
     const Normalizer* normalizer, const std::wstring& sequence) {
   PreTokenizedString pre_tokenized =
       PreTokenizedString(NormalizedString(sequence));
-  auto matches =
-      find_matches(convert_to_string(pre_tokenized.normalized.normalized),
-                   split_non_normalized_trie);
-  std::vector<Split> non_normalized_splits;
-  for (auto match : matches) {
-    std::string value =
-        convert_to_string(pre_tokenized.normalized.normalized.substr(
-            match.second.first, match.second.second - match.second.first));
-    if (match.first.has_value()) {
-      Split new_split = Split(value, match.second);
-      new_split.tokens = {
-          Token(match.first.value(), value, {0, value.length()})};
-      non_normalized_splits.push_back(new_split);
-    } else {
-      non_normalized_splits.push_back(Split(value, match.second));
-    }
-  }
-  if (non_normalized_splits.size() > 0) {
-    pre_tokenized.splits = non_normalized_splits;
+  extract(&pre_tokenized, split_non_normalized_trie);
+  if (normalizer != nullptr) {
+    pre_tokenized.normalize([normalizer](const NormalizedString& text) {
+      return normalizer->normalize(text);
+    });
   }
+  extract(&pre_tokenized, split_normalized_trie);
+  return pre_tokenized;
+}
 
-  std::vector<Split> normalized_splits;
-  int ending_idx = 0;
-  for (const Split& original_split : pre_tokenized.splits) {
-    if (original_split.tokens.size() > 0) {
-      Split new_split = original_split;
-      new_split.offsets = {ending_idx,
-                           ending_idx + new_split.normalized.length()};
-      normalized_splits.push_back(new_split);
-      ending_idx += new_split.normalized.length();
-    } else {
-      NormalizedString split_normalized =
-          NormalizedString(convert_from_string(original_split.normalized));
-      if (normalizer != nullptr) {
-        split_normalized = normalizer->normalize(split_normalized);
-      }
-      std::pair<int, int> new_split_offset = {
-          ending_idx, ending_idx + original_split.offsets.second -
-                          original_split.offsets.first};
-      pre_tokenized.normalized.transform_range(new_split_offset,
-                                               split_normalized);
-
-      matches = find_matches(convert_to_string(split_normalized.normalized),
-                             split_normalized_trie);
-      for (auto match : matches) {
-        std::string value =
-            convert_to_string(split_normalized.normalized.substr(
-                match.second.first, match.second.second - match.second.first));
-        if (match.first.has_value()) {
-          Split new_split =
-              Split(value, {match.second.first + new_split_offset.first,
-                            match.second.second + new_split_offset.first});
-          new_split.tokens = {
-              Token(match.first.value(), value, {0, value.length()})};
-          normalized_splits.push_back(new_split);
-        } else {
-          normalized_splits.push_back(
-              Split(value, {match.second.first + new_split_offset.first,
-                            match.second.second + new_split_offset.first}));
-        }
+void AddedVocabulary::extract(
+    PreTokenizedString* pre_tokenized,
+    const std::pair<std::vector<std::string>, std::vector<int>>& split_re) {
+  std::vector<Split> splits;
+  for (const Split& split : pre_tokenized->splits) {
+    if (!split.tokens.empty()) {
+      splits.push_back(split);
+      continue;
+    }
+    for (const auto& match : find_matches(split.normalized, split_re)) {
+      int start = split.offsets.first + match.second.first;
+      int length = match.second.second - match.second.first;
+      std::string value = convert_to_string(
+          pre_tokenized->normalized.normalized.substr(start, length));
+      Split new_split(value, {start, start + length});
+      if (match.first.has_value()) {
+        new_split.tokens = {Token(match.first.value(), value, {0, length})};
       }
-      ending_idx += split_normalized.normalized.length();
+      splits.push_back(new_split);
     }
   }
-  if (normalized_splits.size() > 0) {
-    pre_tokenized.splits = normalized_splits;
-  }
-
-  return pre_tokenized;
+  pre_tokenized->splits = splits;
 }
 
 std::unique_ptr<AddedVocabulary> with_added_vocabulary(
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 0e7f22a..85abd11 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -1,7 +1,7 @@
 // Copyright 2024 Omkar Prabhu
 #include "tokenizers/normalizer.h"
 
-#include <unicode/normlzr.h>
+#include <unicode/normalizer2.h>
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
@@ -11,7 +11,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -44,20 +43,8 @@ NORMALIZER get_normalizer(std::string type) {
 
 NormalizedString::NormalizedString(std::wstring normalized)
     : normalized(normalized) {
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.c_str()),
-      normalized.length());
-  int idx = 0;
-  for (int i = 0; i < unicode_normalized.length(); i++) {
-    icu::UnicodeString unicode_normalized_str;
-    unicode_normalized_str.append(unicode_normalized.char32At(i));
-    std::string normalized_str;
-    unicode_normalized_str.toUTF8String(normalized_str);
-    offset_ranges.push_back({idx, normalized_str.length()});
-    idx += normalized_str.length();
-    for (int j = 0; j < normalized_str.length(); j++) {
-      offsets.push_back({i, i + 1});
-    }
+  for (int i = 0; i < normalized.length(); i++) {
+    offsets.push_back({i, i + 1});
   }
 }
 
@@ -149,256 +136,98 @@ std::unique_ptr<Normalizer> with_normalizer(
   return nullptr;
 }
 
-void NormalizedString::transform_range(std::pair<int, int> original_offsets,
-                                       NormalizedString sub_normalized) {
-  int original_start = original_offsets.first;
-  int original_end = original_offsets.second;
-  int offsets_start = offset_ranges[original_start].first;
-  int offsets_end = original_end == offset_ranges.size()
-                        ? offset_ranges[original_end - 1].first
-                        : offset_ranges[original_end].first;
-  std::vector<std::pair<int, int>> new_offset_ranges;
-  for (int i = 0; i < sub_normalized.offset_ranges.size(); i++) {
-    if (i == 0) {
-      sub_normalized.offset_ranges[i].first =
-          offset_ranges[original_start].first;
-    } else {
-      sub_normalized.offset_ranges[i].first =
-          sub_normalized.offset_ranges[i - 1].first +
-          sub_normalized.offset_ranges[i - 1].second;
-    }
-    new_offset_ranges.push_back(sub_normalized.offset_ranges[i]);
-  }
-  int j = new_offset_ranges.size();
-  for (int i = original_end; i < offset_ranges.size(); i++) {
-    new_offset_ranges.push_back(
-        {new_offset_ranges[j - 1].first + new_offset_ranges[j - 1].second,
-         offset_ranges[i].second});
-    j++;
-  }
-  std::pair<int, int> prev;
-  for (int i = 0; i < sub_normalized.offsets.size(); i++) {
-    if (i == 0) {
-      prev = sub_normalized.offsets[i];
-      sub_normalized.offsets[i].first = offsets[offsets_start].first;
-      sub_normalized.offsets[i].second = offsets[offsets_start].second;
-    } else {
-      if (prev == sub_normalized.offsets[i]) {
-        sub_normalized.offsets[i] = sub_normalized.offsets[i - 1];
-      } else {
-        prev = sub_normalized.offsets[i];
-        sub_normalized.offsets[i] = {sub_normalized.offsets[i - 1].second,
-                                     sub_normalized.offsets[i - 1].second + 1};
-      }
-    }
+void NormalizedString::append(const std::wstring& content,
+                              std::pair<int, int> offset) {
+  normalized += content;
+  offsets.insert(offsets.end(), content.length(), offset);
+}
+
+void NormalizedString::append(const NormalizedString& other) {
+  normalized += other.normalized;
+  offsets.insert(offsets.end(), other.offsets.begin(), other.offsets.end());
+}
+
+NormalizedString NormalizedString::slice(int start, int end) const {
+  return NormalizedString(normalized.substr(start, end - start),
+                          std::vector<std::pair<int, int>>(
+                              offsets.begin() + start, offsets.begin() + end));
+}
+
+std::pair<int, int> NormalizedString::original_range(int start, int end) const {
+  std::pair<int, int> range = offsets[start];
+  for (int i = start + 1; i < end; i++) {
+    range.first = std::min(range.first, offsets[i].first);
+    range.second = std::max(range.second, offsets[i].second);
   }
-  offset_ranges.erase(offset_ranges.begin() + original_start,
-                      offset_ranges.end());
-  offset_ranges.insert(offset_ranges.begin() + original_start,
-                       new_offset_ranges.begin(), new_offset_ranges.end());
-  offsets.erase(offsets.begin() + offsets_start, offsets.begin() + offsets_end);
-  offsets.insert(offsets.begin() + offsets_start,
-                 sub_normalized.offsets.begin(), sub_normalized.offsets.end());
+  return range;
 }
 
-void NormalizedString::transform(int i, std::string op, int n) {
-  int start = offset_ranges[i].first;
-  int limit = offset_ranges[i].second;
-  if (op == "erase") {
-    offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
-    offset_ranges.erase(offset_ranges.begin() + i,
-                        offset_ranges.begin() + i + 1);
-  } else if (op == "pad") {
-    std::pair<int, int> offset = offsets[start];
-    std::vector<std::pair<int, int>> new_offsets(2, offset);
-    offsets.insert(offsets.begin() + start, new_offsets.begin(),
-                   new_offsets.end());
-    std::vector<std::pair<int, int>> new_offset_ranges = {
-        {start, 1}, {start + 1, limit}, {start + limit + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-    for (int j = i + 3; j < offset_ranges.size(); j++) {
-      offset_ranges[j].first =
-          offset_ranges[j - 1].first + offset_ranges[j - 1].second;
+// Normalizes the characters between two normalization boundaries together: they
+// do not interact with any other, and share their alignment when they change.
+NormalizedString normalize_by_boundaries(const icu::Normalizer2* normalizer,
+                                         const NormalizedString& normalized,
+                                         UErrorCode status) {
+  NormalizedString result{std::wstring()};
+  int start = 0, length = normalized.normalized.length();
+  while (start < length && U_SUCCESS(status)) {
+    int end = start + 1;
+    while (end < length &&
+           !normalizer->hasBoundaryBefore(normalized.normalized[end])) {
+      end++;
     }
-  } else if (op == "grow") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, 1},
-                                                          {start + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-  } else if (op == "shrink") {
-    offset_ranges.erase(offset_ranges.begin() + i);
-  } else if (op == "add" || op == "replace") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, n}};
-    if (op == "add") {
-      new_offset_ranges.push_back({start + n, limit});
-    }
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-    for (int j = i + (op == "add" ? 2 : 1); j < offset_ranges.size(); j++) {
-      offset_ranges[j].first =
-          offset_ranges[j - 1].first + offset_ranges[j - 1].second;
+    icu::UnicodeString source = icu::UnicodeString::fromUTF32(
+        reinterpret_cast<const UChar32*>(normalized.normalized.c_str() + start),
+        end - start);
+    icu::UnicodeString target = normalizer->normalize(source, status);
+    if (U_SUCCESS(status) && target != source) {
+      std::wstring content(target.countChar32(), L'\0');
+      target.toUTF32(reinterpret_cast<UChar32*>(&content[0]), content.length(),
+                     status);
+      result.append(content, normalized.original_range(start, end));
+    } else {
+      result.append(normalized.slice(start, end));
     }
-    std::vector<std::pair<int, int>> new_offsets((op == "add" ? n : n - 1),
-                                                 {offsets[start]});
-    offsets.insert(offsets.begin() + start, new_offsets.begin(),
-                   new_offsets.end());
+    start = end;
   }
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU normalization failed with error code: " +
+                             std::to_string(status));
+  }
+  return result;
 }
 
 NFC::NFC() {}
 
 NormalizedString NFC::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFC, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* normalizer = icu::Normalizer2::getNFCInstance(status);
+  return normalize_by_boundaries(normalizer, normalized, status);
 }
 
 NFD::NFD() {}
 
 NormalizedString NFD::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFD, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* normalizer = icu::Normalizer2::getNFDInstance(status);
+  return normalize_by_boundaries(normalizer, normalized, status);
 }
 
 NFKC::NFKC() {}
 
 NormalizedString NFKC::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFKC, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* normalizer =
+      icu::Normalizer2::getNFKCInstance(status);
+  return normalize_by_boundaries(normalizer, normalized, status);
 }
 
 NFKD::NFKD() {}
 
 NormalizedString NFKD::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
-  icu::Normalizer::normalize(unicode_normalized, UNORM_NFKD, 0,
-                             unicode_normalized, status);
-  if (U_FAILURE(status)) {
-    throw std::runtime_error("ICU normalization failed with error code: " +
-                             std::to_string(status));
-  }
-  std::wstring result;
-  result.resize(unicode_normalized.countChar32());
-  unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
-                             unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
-  normalized.normalized = result;
-  return normalized;
+  const icu::Normalizer2* normalizer =
+      icu::Normalizer2::getNFKDInstance(status);
+  return normalize_by_boundaries(normalizer, normalized, status);
 }
 
 BertNormalizer::BertNormalizer(bool clean_text, bool handle_chinese_chars,
@@ -454,81 +283,39 @@ bool is_chinese_char(wchar_t c) {
 }
 
 NormalizedString BertNormalizer::do_clean_text(NormalizedString normalized) {
-  std::wstring result;
-  int i = 0;
-  for (wchar_t c : normalized.normalized) {
+  NormalizedString result{std::wstring()};
+  for (int i = 0; i < normalized.normalized.length(); i++) {
+    wchar_t c = normalized.normalized[i];
     if (c != 0 && c != 0xFFFD && !is_control(c)) {
-      if (is_whitespace(c)) {
-        result.push_back(L' ');
-      } else {
-        result.push_back(c);
-      }
-    } else {
-      normalized.transform(i, "erase", 0);
+      result.append(std::wstring(1, is_whitespace(c) ? L' ' : c),
+                    normalized.offsets[i]);
     }
-    i++;
   }
-  normalized.normalized = result;
-  return normalized;
+  return result;
 }
 
 NormalizedString BertNormalizer::do_handle_chinese_chars(
     NormalizedString normalized) {
-  std::vector<std::pair<wchar_t, int>> new_chars;
-  std::vector<int> transform_ids;
-  int i = 0;
-  for (wchar_t c : normalized.normalized) {
-    if (is_chinese_char(c)) {
-      new_chars.insert(new_chars.end(), {{L' ', 0}, {c, 1}, {L' ', 1}});
-      transform_ids.push_back(i);
-    } else {
-      new_chars.push_back({c, 0});
-    }
-    i++;
-  }
-  int multi = 0;
-  for (auto ti : transform_ids) {
-    ti += multi;
-    multi += 2;
-    normalized.transform(ti, "pad", 0);
-  }
-  std::wstring result = normalized.normalized;
-  i = 0;
-  for (const auto& change : new_chars) {
-    if (change.second > 0) {
-      result.insert(i, 1, change.first);
-    } else if (change.second < 0) {
-      i += change.second;
-      result.insert(i, 1, change.first);
-    } else {
-      result[i] = change.first;
-    }
-    i++;
-  }
-  normalized.normalized = result;
-  return normalized;
+  NormalizedString result{std::wstring()};
+  for (int i = 0; i < normalized.normalized.length(); i++) {
+    wchar_t c = normalized.normalized[i];
+    result.append(
+        is_chinese_char(c) ? std::wstring{L' ', c, L' '} : std::wstring(1, c),
+        normalized.offsets[i]);
+  }
+  return result;
 }
 
 NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
   auto nfd_normalized = NFD().normalize(normalized);
-  std::wstring result;
-  int i = 0;
-  std::vector<int> shrink_ids;
-  for (wchar_t c : nfd_normalized.normalized) {
+  NormalizedString result{std::wstring()};
+  for (int i = 0; i < nfd_normalized.normalized.length(); i++) {
+    wchar_t c = nfd_normalized.normalized[i];
     if (u_charType(static_cast<UChar32>(c)) != U_NON_SPACING_MARK) {
-      result.push_back(c);
-    } else {
-      shrink_ids.push_back(i);
+      result.append(std::wstring(1, c), nfd_normalized.offsets[i]);
     }
-    i++;
   }
-  int multi = 0;
-  for (auto id : shrink_ids) {
-    nfd_normalized.transform(id + multi, "shrink", 0);
-    multi -= 1;
-  }
-  nfd_normalized.normalized = result;
-  return nfd_normalized;
+  return result;
 }
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
@@ -556,38 +343,34 @@ NormalizedString SequenceNormalizer::normalize(
 Prepend::Prepend(const std::string& prepend) : prepend(prepend) {}
 
 NormalizedString Prepend::normalize(NormalizedString normalized) const {
-  std::wstring result = convert_from_string(prepend) + normalized.normalized;
-  normalized.transform(0, "add", prepend.length());
-  normalized.normalized = result;
-  return normalized;
+  if (normalized.normalized.empty()) {
+    return normalized;
+  }
+  NormalizedString result{std::wstring()};
+  result.append(convert_from_string(prepend), normalized.offsets[0]);
+  result.append(normalized);
+  return result;
 }
 
 Replace::Replace(const std::string& pattern, const std::string& content)
     : pattern(pattern), content(content) {}
 
 NormalizedString Replace::normalize(NormalizedString normalized) const {
-  std::wregex regex_pattern(convert_from_string(pattern));
-  std::vector<int> replace_ids;
-  std::wsregex_iterator it(normalized.normalized.begin(),
-                           normalized.normalized.end(), regex_pattern);
-  std::wsregex_iterator end;
+  std::wstring search = convert_from_string(pattern);
   std::wstring replace_content = convert_from_string(content);
-  while (it != end) {
-    std::wsmatch match = *it;
-    replace_ids.push_back(match.position());
-    normalized.normalized.erase(normalized.normalized.begin() +
-                                match.position());
-    normalized.normalized.insert(
-        normalized.normalized.begin() + match.position(),
-        replace_content.begin(), replace_content.end());
-    ++it;
-  }
-  int multi = 0;
-  for (auto i : replace_ids) {
-    normalized.transform(i + multi, "replace", content.length());
-    multi += replace_content.length();
-  }
-  return normalized;
+  if (search.empty()) {
+    return normalized;
+  }
+  NormalizedString result{std::wstring()};
+  size_t start = 0, match;
+  while ((match = normalized.normalized.find(search, start)) !=
+         std::wstring::npos) {
+    result.append(normalized.slice(start, match));
+    start = match + search.length();
+    result.append(replace_content, normalized.original_range(match, start));
+  }
+  result.append(normalized.slice(start, normalized.normalized.length()));
+  return result;
 }
 
 Strip::Strip(bool strip_left, bool strip_right)
@@ -608,8 +391,7 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
       --end;
     }
   }
-  normalized.normalized = normalized.normalized.substr(start, end - start);
-  return normalized;
+  return normalized.slice(start, end);
 }
 
 bool isCombiningMark(wchar_t ch) { return (ch >= 0x0300 && ch <= 0x036F); }
@@ -617,12 +399,12 @@ bool isCombiningMark(wchar_t ch) { return (ch >= 0x0300 && ch <= 0x036F); }
 StripAccents::StripAccents() {}
 
 NormalizedString StripAccents::normalize(NormalizedString normalized) const {
-  std::wstring result;
-  for (wchar_t ch : normalized.normalized) {
+  NormalizedString result{std::wstring()};
+  for (int i = 0; i < normalized.normalized.length(); i++) {
+    wchar_t ch = normalized.normalized[i];
     if (!isCombiningMark(ch)) {
-      result += ch;
+      result.append(std::wstring(1, ch), normalized.offsets[i]);
     }
   }
-  normalized.normalized = result;
-  return normalized;
+  return result;
 }
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 01e7054..99cc890 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -195,6 +195,27 @@ void PreTokenizedString::split(
   splits = new_splits;
 }
 
+// Rewrites the text of every split no added token has claimed
+void PreTokenizedString::normalize(
+    std::function<NormalizedString(const NormalizedString&)> normalize_fn) {
+  NormalizedString result{std::wstring()};
+  int end = 0;
+  for (Split& split : splits) {
+    result.append(normalized.slice(end, split.offsets.first));
+    end = split.offsets.second;
+    NormalizedString text = normalized.slice(split.offsets.first, end);
+    if (split.tokens.empty()) {
+      text = normalize_fn(text);
+      split.normalized = convert_to_string(text.normalized);
+    }
+    int start = result.normalized.length();
+    result.append(text);
+    split.offsets = {start, result.normalized.length()};
+  }
+  result.append(normalized.slice(end, normalized.normalized.length()));
+  normalized = result;
+}
+
 BertPreTokenizer::BertPreTokenizer() {}
 
 PreTokenizedString BertPreTokenizer::pre_tokenize(
@@ -247,12 +268,15 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  if (add_prefix_space &&
-      !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
-    pre_tokenized.normalized.normalized =
-        std::wstring(L" ") + pre_tokenized.normalized.normalized;
-    pre_tokenized.normalized.transform(0, "add", std::wstring(L" ").length());
-    pre_tokenized = PreTokenizedString(pre_tokenized.normalized);
+  if (add_prefix_space) {
+    pre_tokenized.normalize([](const NormalizedString& text) {
+      NormalizedString result{std::wstring()};
+      if (!text.normalized.empty() && !std::iswspace(text.normalized[0])) {
+        result.append(L" ", text.offsets[0]);
+      }
+      result.append(text);
+      return result;
+    });
   }
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
@@ -262,12 +286,17 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     return {{{0, input.length()}, false}};
   };
   pre_tokenized.split(matches_regex, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
-  for (Split& split : pre_tokenized.splits) {
-    std::string new_split_normalized;
-    for (const char c : split.normalized) {
-      new_split_normalized += BYTES_CHAR.at(static_cast<int>(c));
+  pre_tokenized.normalize([this](const NormalizedString& text) {
+    NormalizedString result{std::wstring()};
+    for (int i = 0; i < text.normalized.length(); i++) {
+      std::string byte_chars;
+      for (unsigned char byte :
+           convert_to_string(std::wstring(1, text.normalized[i]))) {
+        byte_chars += BYTES_CHAR.at(byte);
+      }
+      result.append(convert_from_string(byte_chars), text.offsets[i]);
     }
-    split.normalized = new_split_normalized;
-  }
+    return result;
+  });
   return pre_tokenized;
 }
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e5ffd6d..58e163d 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -137,21 +137,12 @@ Encoding into_encoding(PreTokenizedString pre_tokenized,
   Encoding encoding;
   for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {
     Split split = pre_tokenized.splits[idx];
-    std::pair<int, int> transformed_split_offset = {
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .first,
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .second};
     for (Token token : split.tokens) {
       encoding.ids.push_back(token.id);
       encoding.tokens.push_back(token.value);
-      encoding.offsets.push_back(
-          {transformed_split_offset.first + token.offsets.first,
-           transformed_split_offset.first + token.offsets.second});
+      encoding.offsets.push_back(pre_tokenized.normalized.original_range(
+          split.offsets.first + token.offsets.first,
+          split.offsets.first + token.offsets.second));
       encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);
       encoding.type_ids.push_back(type_id);
       encoding.special_tokens_mask.push_back(0);
-- 
2.43.0


From 6ced33ac8180c4e85ed24f0ec8207d300c9b8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 14/47] fix: classify characters by Unicode, not by the process
 locale

iswspace, iswcntrl and towlower depend on the locale: in the default C locale
BertNormalizer lowercased ASCII only and kept format characters and Unicode
spaces.
---
 src/normalizer.cpp    | 7 ++++---
 src/pre_tokenizer.cpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 85abd11..8e913d7 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -260,7 +260,7 @@ bool is_whitespace(wchar_t c) {
     case L'\r':
       return true;
     default:
-      return std::iswspace(c);
+      return u_isUWhiteSpace(c);
   }
 }
 
@@ -271,7 +271,7 @@ bool is_control(wchar_t c) {
     case L'\r':
       return false;
     default:
-      return std::iswcntrl(c);
+      return u_charType(c) == U_CONTROL_CHAR || u_charType(c) == U_FORMAT_CHAR;
   }
 }
 
@@ -320,7 +320,8 @@ NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
   std::wstring result = normalized.normalized;
-  std::transform(result.begin(), result.end(), result.begin(), std::towlower);
+  std::transform(result.begin(), result.end(), result.begin(),
+                 [](wchar_t c) { return static_cast<wchar_t>(u_tolower(c)); });
   normalized.normalized = result;
   return normalized;
 }
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 99cc890..512a67f 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -271,7 +271,7 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
   if (add_prefix_space) {
     pre_tokenized.normalize([](const NormalizedString& text) {
       NormalizedString result{std::wstring()};
-      if (!text.normalized.empty() && !std::iswspace(text.normalized[0])) {
+      if (!text.normalized.empty() && !u_isUWhiteSpace(text.normalized[0])) {
         result.append(L" ", text.offsets[0]);
       }
       result.append(text);
-- 
2.43.0


From aa2510455a35a80cc14a6549d71298d0054122e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 15/47] fix: strip Unicode whitespace in the Strip normalizer

Only the low byte of the character was tested, so letters such as U+0120 and
U+0420 were stripped and U+00A0 or U+3000 were not.
---
 src/normalizer.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 8e913d7..eb701a2 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -381,14 +381,12 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   int start = 0, end = normalized.normalized.size();
   if (strip_left) {
     while (start < normalized.normalized.size() &&
-           std::isspace(
-               static_cast<unsigned char>(normalized.normalized[start]))) {
+           u_isUWhiteSpace(normalized.normalized[start])) {
       ++start;
     }
   }
   if (strip_right) {
-    while (end > start && std::isspace(static_cast<unsigned char>(
-                              normalized.normalized[end - 1]))) {
+    while (end > start && u_isUWhiteSpace(normalized.normalized[end - 1])) {
       --end;
     }
   }
-- 
2.43.0


From 233193dd410ec90085aafcc73e1286dc2f6479ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 16/47] fix: strip every combining mark in StripAccents

Only the block U+0300..U+036F was removed.
---
 src/normalizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index eb701a2..a128f7b 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -393,7 +393,9 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   return normalized.slice(start, end);
 }
 
-bool isCombiningMark(wchar_t ch) { return (ch >= 0x0300 && ch <= 0x036F); }
+bool isCombiningMark(wchar_t ch) {
+  return (U_GET_GC_MASK(static_cast<UChar32>(ch)) & U_GC_M_MASK) != 0;
+}
 
 StripAccents::StripAccents() {}
 
-- 
2.43.0


From 6f9132a6fa49999c2549e924a87561a39478a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 17/47] fix: keep accents when BertNormalizer is told not to
 strip them

strip_accents false was overridden by lowercase true; only a null follows
lowercase.
---
 include/tokenizers/normalizer.h |  2 +-
 src/normalizer.cpp              | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index cc15708..93b1124 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -61,7 +61,7 @@ class BertNormalizer : public Normalizer {
  public:
   explicit BertNormalizer(bool clean_text = true,
                           bool handle_chinese_chars = true,
-                          bool strip_accents = false, bool lowercase = true);
+                          bool strip_accents = true, bool lowercase = true);
   NormalizedString normalize(NormalizedString normalized) const override;
 
  private:
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index a128f7b..2da40fb 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -111,13 +111,15 @@ std::unique_ptr<Normalizer> with_normalizer(
             ? false
             : static_cast<bool>(val.get_bool());
     val = normalizer_params["strip_accents"].value();
-    bool strip_accents = val.type() == simdjson::ondemand::json_type::null
-                             ? false
-                             : static_cast<bool>(val.get_bool());
+    std::optional<bool> strip_accents_param;
+    if (val.type() != simdjson::ondemand::json_type::null) {
+      strip_accents_param = static_cast<bool>(val.get_bool());
+    }
     val = normalizer_params["lowercase"].value();
     bool lowercase = val.type() == simdjson::ondemand::json_type::null
                          ? false
                          : static_cast<bool>(val.get_bool());
+    bool strip_accents = strip_accents_param.value_or(lowercase);
     return std::make_unique<BertNormalizer>(BertNormalizer(
         clean_text, handle_chinese_chars, strip_accents, lowercase));
   } else if (get_normalizer(type) == STRIP_NORMALIZER) {
@@ -244,7 +246,7 @@ NormalizedString BertNormalizer::normalize(NormalizedString normalized) const {
   if (handle_chinese_chars) {
     normalized = do_handle_chinese_chars(normalized);
   }
-  if (strip_accents || lowercase) {
+  if (strip_accents) {
     normalized = do_strip_accents(normalized);
   }
   if (lowercase) {
-- 
2.43.0


From adf3986dc0c1a3cbcf063bd44f9dd41189b59e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 18/47] fix: use the whole GPT-2 pattern in ByteLevel

The regex flag passed as a second argument to the std::string constructor is a
length: it cut the pattern to its first characters.
---
 src/pre_tokenizer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 512a67f..fc6475e 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -10,7 +10,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -262,8 +261,7 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
     : add_prefix_space(add_prefix_space),
       use_regex(use_regex),
       regex(
-          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)",
-          std::regex_constants::optimize),
+          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)"),
       BYTES_CHAR(bytes_char()) {}
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
-- 
2.43.0


From 0cf7d79ea06c8e9c6c490a974efe0c4333ecbe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 19/47] fix: treat ASCII symbols as punctuation in
 BertPreTokenizer

BERT splits on every non-alphanumeric ASCII character, $ + < = > ^ ` | ~ included,
which are not in the Unicode punctuation categories.
---
 src/pre_tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index fc6475e..4a187bb 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -135,7 +135,7 @@ std::vector<std::pair<std::pair<int, int>, bool>> is_whitespace(
 
 std::vector<std::pair<std::pair<int, int>, bool>> is_bert_punc(
     icu::UnicodeString input) {
-  std::string pattern = "\\p{P}";
+  std::string pattern = "[\\p{P}\\$\\+<=>\\^`\\|~]";
   return find_matches(pattern, input);
 }
 
-- 
2.43.0


From 5073dfccdc8b7ef0fb851349d92104f92305cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 20/47] fix: report an invalid Split pattern instead of
 crashing

The pattern that failed to compile was dereferenced on the first encode; a match
that failed half-way silently left the rest of the text in one piece.
---
 src/pre_tokenizer.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 4a187bb..b7598e1 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -103,14 +103,15 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
     std::string regex, icu::UnicodeString input) {
   std::vector<std::pair<int, int>> matches;
   UErrorCode status = U_ZERO_ERROR;
-  icu::RegexPattern* unicode_pattern = icu::RegexPattern::compile(
-      icu::UnicodeString::fromUTF8(regex), 0, status);
-  icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
-  while (matcher->find(status)) {
-    matches.push_back({matcher->start(status), matcher->end(status)});
+  icu::RegexMatcher matcher(icu::UnicodeString::fromUTF8(regex), input, 0,
+                            status);
+  while (U_SUCCESS(status) && matcher.find(status)) {
+    matches.push_back({matcher.start(status), matcher.end(status)});
+  }
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU regex failed with error code: " +
+                             std::to_string(status));
   }
-  delete matcher;
-  delete unicode_pattern;
 
   std::vector<std::pair<std::pair<int, int>, bool>> result;
   int cur = 0;
@@ -243,7 +244,9 @@ SplitPreTokenizer::SplitPreTokenizer(const std::string& pattern,
                                      const std::string& behavior, bool invert)
     : pattern(pattern),
       behavior(get_split_delimiter_behavior(behavior)),
-      invert(invert) {}
+      invert(invert) {
+  find_matches(pattern, icu::UnicodeString());
+}
 
 PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-- 
2.43.0


From 20ca3a795a3b98241d38b2b41665957bab9f6efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 21/47] fix: honour invert in the Split pre-tokenizer

---
 src/pre_tokenizer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index b7598e1..b2b2649 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -252,7 +252,13 @@ PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
-    return find_matches(pattern, input);
+    auto matches = find_matches(pattern, input);
+    if (invert) {
+      for (auto& match : matches) {
+        match.second = !match.second;
+      }
+    }
+    return matches;
   };
 
   pre_tokenized.split(matches_regex, behavior);
-- 
2.43.0


From 4f570d5ad8e70d00bac115ddd015d3fb36f6e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 22/47] fix: give pre-tokens code point offsets and drop empty
 ones

Offsets into the normalized text were counted in UTF-16 units, so a character
outside the BMP shifted every pre-token after it, and a zero-width match produced
an empty pre-token.
---
 src/pre_tokenizer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index b2b2649..815db05 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -160,17 +160,19 @@ std::vector<Split> split_normalized(
       }
       break;
   }
+  int start = original_split.offsets.first;
   for (auto match : matches) {
-    if (!match.second) {
+    int end =
+        start + unicode_normalized.countChar32(
+                    match.first.first, match.first.second - match.first.first);
+    if (!match.second && start < end) {
       std::string split_unicode_normalized;
       unicode_normalized
           .tempSubStringBetween(match.first.first, match.first.second)
           .toUTF8String(split_unicode_normalized);
-      new_splits.push_back(
-          Split(split_unicode_normalized,
-                {match.first.first + original_split.offsets.first,
-                 match.first.second + original_split.offsets.first}));
+      new_splits.push_back(Split(split_unicode_normalized, {start, end}));
     }
+    start = end;
   }
   return new_splits;
 }
-- 
2.43.0


From bb0c07d8a2528fe51b6179da9bdb962d5ab56e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 23/47] fix: honour every Split behavior

MergedWithPrevious, MergedWithNext and Contiguous, and any misspelt behavior, were
taken for Removed and lost the text that matched.
---
 include/tokenizers/common.h |  8 +++++++-
 src/common.cpp              | 15 ++++++++++++---
 src/pre_tokenizer.cpp       | 24 +++++++++++++++++-------
 3 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/include/tokenizers/common.h b/include/tokenizers/common.h
index 8d9b135..8b940f2 100644
--- a/include/tokenizers/common.h
+++ b/include/tokenizers/common.h
@@ -37,7 +37,13 @@ class Token {
   Token(int id, std::string value, std::pair<int, int> offsets);
 };
 
-enum SPLIT_DELIMITER_BEHAVIOR { REMOVED, ISOLATED };
+enum SPLIT_DELIMITER_BEHAVIOR {
+  REMOVED,
+  ISOLATED,
+  MERGED_WITH_PREVIOUS,
+  MERGED_WITH_NEXT,
+  CONTIGUOUS
+};
 
 SPLIT_DELIMITER_BEHAVIOR
 get_split_delimiter_behavior(const std::string &behavior);
diff --git a/src/common.cpp b/src/common.cpp
index d98c463..96bf512 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -21,10 +22,18 @@ Token::Token(int id, std::string value, std::pair<int, int> offsets)
 
 SPLIT_DELIMITER_BEHAVIOR get_split_delimiter_behavior(
     const std::string& behavior) {
-  if (behavior == "Isolated") {
-    return ISOLATED;
+  static const std::unordered_map<std::string, SPLIT_DELIMITER_BEHAVIOR>
+      behaviors = {{"Removed", REMOVED},
+                   {"Isolated", ISOLATED},
+                   {"MergedWithPrevious", MERGED_WITH_PREVIOUS},
+                   {"MergedWithNext", MERGED_WITH_NEXT},
+                   {"Contiguous", CONTIGUOUS}};
+
+  auto it = behaviors.find(behavior);
+  if (it == behaviors.end()) {
+    throw std::invalid_argument("Unknown split delimiter behavior");
   }
-  return REMOVED;
+  return it->second;
 }
 
 Split::Split() {}
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 815db05..47e408a 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -151,14 +151,24 @@ std::vector<Split> split_normalized(
       icu::UnicodeString::fromUTF8(original_split.normalized);
   std::vector<std::pair<std::pair<int, int>, bool>> matches =
       split_fn(unicode_normalized);
-  switch (pattern) {
-    case REMOVED:
-      break;
-    case ISOLATED:
-      for (auto& match : matches) {
-        match.second = false;
+  if (pattern != REMOVED) {
+    // joins a piece with the one before it when the behavior asks for it
+    std::vector<std::pair<std::pair<int, int>, bool>> pieces;
+    bool prev = false;
+    for (size_t i = 0; i < matches.size(); i++) {
+      bool is_match = matches[i].second;
+      bool join = pattern == MERGED_WITH_PREVIOUS ? is_match && !prev
+                  : pattern == MERGED_WITH_NEXT   ? prev && !is_match
+                  : pattern == CONTIGUOUS         ? prev == is_match
+                                                  : false;
+      if (join && !pieces.empty()) {
+        pieces.back().first.second = matches[i].first.second;
+      } else {
+        pieces.push_back({matches[i].first, false});
       }
-      break;
+      prev = is_match;
+    }
+    matches = pieces;
   }
   int start = original_split.offsets.first;
   for (auto match : matches) {
-- 
2.43.0


From e24568545b07091435a51c21c095faedc4a69e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 24/47] fix: give added tokens ids that are not in use

The id of a token the model does not know was derived from the vocabulary size,
which collides when ids are sparse, and from the largest added id, which was read
from an empty map. Registering the tokens of the configuration also iterated over
the vector it was growing.
---
 src/added_vocabulary.cpp | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 13c6d6d..5be6ed2 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -52,8 +52,10 @@ std::optional<std::string> AddedVocabulary::id_to_token(int id) {
   return std::nullopt;
 }
 
-int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
+int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                                 Model* model, Normalizer* normalizer) {
+  // new_tokens may be added_tokens itself, which grows below
+  const std::vector<AddedToken> tokens = new_tokens;
   for (auto token : tokens) {
     if (token.special && !token.content.empty() &&
         special_tokens_set.count(token.content) != 1) {
@@ -62,6 +64,16 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
     }
   }
 
+  int next_id = 0;
+  if (model != nullptr) {
+    for (const auto& element : model->vocab) {
+      next_id = std::max(next_id, element.second + 1);
+    }
+  }
+  for (const auto& element : added_tokens_map) {
+    next_id = std::max(next_id, element.second + 1);
+  }
+
   int ignored = 0;
   for (auto token : tokens) {
     if (token.content.empty()) {
@@ -69,27 +81,14 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
       continue;
     }
 
-    int new_id;
     auto it = added_tokens_map.find(token.content);
+    std::optional<int> known_id;
     if (it != added_tokens_map.end()) {
-      new_id = it->second;
-    } else if (model->token_to_id(token.content).has_value()) {
-      new_id = model->token_to_id(token.content).value();
-    } else {
-      auto max_val_token =
-          std::max_element(added_tokens_map.begin(), added_tokens_map.end(),
-                           [](const std::pair<std::string, int>& a,
-                              const std::pair<std::string, int>& b) {
-                             return a.second < b.second;
-                           });
-      if (model->get_vocab_size() == 0 ||
-          (max_val_token != added_tokens_map.end() &&
-           max_val_token->second >= model->get_vocab_size())) {
-        new_id = max_val_token->second + 1;
-      } else {
-        new_id = model->get_vocab_size();
-      }
+      known_id = it->second;
+    } else if (model != nullptr) {
+      known_id = model->token_to_id(token.content);
     }
+    int new_id = known_id.has_value() ? known_id.value() : next_id++;
     added_tokens_map[token.content] = new_id;
     added_tokens_map_r[new_id] = token;
 
-- 
2.43.0


From 2ec8832cc5f8fed8506d0959f2532d368ca56aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 25/47] fix: look for every registered token, by its normalized
 content

Only tokens that the model also knows were looked for, under whichever flags they
were first registered with, and normalized tokens were looked for by their raw
content in the normalized text.
---
 include/tokenizers/added_vocabulary.h |  3 ++-
 src/added_vocabulary.cpp              | 30 ++++++++++++---------------
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/include/tokenizers/added_vocabulary.h b/include/tokenizers/added_vocabulary.h
index c1fb979..27e8802 100644
--- a/include/tokenizers/added_vocabulary.h
+++ b/include/tokenizers/added_vocabulary.h
@@ -1,6 +1,7 @@
 // Copyright 2024 Omkar Prabhu
 #pragma once
 
+#include <map>
 #include <memory>
 #include <optional>
 #include <string>
@@ -47,7 +48,7 @@ class AddedVocabulary {
  private:
   bool encode_special_tokens;
   std::unordered_map<std::string, int> added_tokens_map;
-  std::unordered_map<int, AddedToken> added_tokens_map_r;
+  std::map<int, AddedToken> added_tokens_map_r;
   std::vector<AddedToken> special_tokens;
   std::unordered_set<std::string> special_tokens_set;
   std::pair<std::vector<std::string>, std::vector<int>>
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 5be6ed2..ab484a6 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -105,24 +105,20 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
 void AddedVocabulary::refresh_added_tokens(Model* model,
                                            Normalizer* normalizer) {
   std::vector<std::pair<AddedToken, int>> normalized, non_normalized;
-  for (auto token : special_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
-      if (token.normalized) {
-        normalized.push_back({token, id.value()});
-      } else {
-        non_normalized.push_back({token, id.value()});
-      }
+  for (const auto& element : added_tokens_map_r) {
+    AddedToken token = element.second;
+    if (!token.normalized) {
+      non_normalized.push_back({token, element.first});
+      continue;
     }
-  }
-  for (auto token : added_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
-      if (token.normalized) {
-        normalized.push_back({token, id.value()});
-      } else {
-        non_normalized.push_back({token, id.value()});
-      }
+    if (normalizer != nullptr) {
+      token.content = convert_to_string(
+          normalizer
+              ->normalize(NormalizedString(convert_from_string(token.content)))
+              .normalized);
+    }
+    if (!token.content.empty()) {
+      normalized.push_back({token, element.first});
     }
   }
 
-- 
2.43.0


From 3248710da6bc8b47b9e6842b5f95de83f0414058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 26/47] fix: find added tokens wherever they occur

Tokens were found only when they filled the text between two spaces, the shortest
one won, positions mixed UTF-16 units, bytes and characters, and single_word,
lstrip and rstrip saw only ASCII.
---
 include/tokenizers/added_vocabulary.h |   4 +-
 src/added_vocabulary.cpp              | 129 ++++++++++----------------
 2 files changed, 51 insertions(+), 82 deletions(-)

diff --git a/include/tokenizers/added_vocabulary.h b/include/tokenizers/added_vocabulary.h
index 27e8802..294c713 100644
--- a/include/tokenizers/added_vocabulary.h
+++ b/include/tokenizers/added_vocabulary.h
@@ -56,8 +56,8 @@ class AddedVocabulary {
   std::pair<std::vector<std::string>, std::vector<int>> split_normalized_trie;
   void refresh_added_tokens(Model *model, Normalizer *normalizer);
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> find_matches(
-      std::string sentence,
-      std::pair<std::vector<std::string>, std::vector<int>> split_re);
+      const std::wstring &sentence,
+      const std::pair<std::vector<std::string>, std::vector<int>> &split_re);
   void extract(
       PreTokenizedString *pre_tokenized,
       const std::pair<std::vector<std::string>, std::vector<int>> &split_re);
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index ab484a6..4fb3b86 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -5,9 +5,10 @@
 #include <unicode/unistr.h>
 
 #include <algorithm>
+#include <functional>
 #include <memory>
 #include <optional>
-#include <regex>
+#include <set>
 #include <string>
 #include <tuple>
 #include <unordered_map>
@@ -139,96 +140,63 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
   split_non_normalized_trie = {non_normalized_tokens, non_normalized_ids};
 }
 
-bool ends_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("\\w$"));
-}
-
-bool starts_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("^\\w"));
-}
-
-size_t space_leftmost_at_end(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("\\s*$"))) {
-    return match.position();
-  } else {
-    return sentence.length();
-  }
-}
-
-size_t space_rightmost_at_start(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("^\\s*"))) {
-    return match.length();
-  } else {
-    return 0;
-  }
+bool is_word_char(wchar_t c) {
+  return (U_GET_GC_MASK(static_cast<UChar32>(c)) &
+          (U_GC_L_MASK | U_GC_M_MASK | U_GC_ND_MASK | U_GC_NL_MASK |
+           U_GC_PC_MASK)) != 0;
 }
 
 std::vector<std::pair<std::optional<int>, std::pair<int, int>>>
 AddedVocabulary::find_matches(
-    std::string sentence,
-    std::pair<std::vector<std::string>, std::vector<int>> split_re) {
+    const std::wstring& sentence,
+    const std::pair<std::vector<std::string>, std::vector<int>>& split_re) {
   // TODO(omkar): update to find matches from trie
-  std::vector<std::tuple<int, int, int>> matches;
-  std::unordered_map<std::string, int> word_ids;
+  std::unordered_map<std::wstring, int> word_ids;
+  std::set<int, std::greater<int>> lengths;
   for (int i = 0; i < split_re.first.size(); ++i) {
-    word_ids[split_re.first[i]] = split_re.second[i];
-  }
-  icu::UnicodeString unicode_sentence = icu::UnicodeString::fromUTF8(sentence);
-  int i = 0, cur = 0;
-  while (i < unicode_sentence.length()) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
-      cur = i;
-    }
-    if (unicode_sentence[i] == ' ') {
-      cur = i + 1;
-    }
-    i++;
-  }
-  if (i != cur) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
-    }
+    std::wstring content = convert_from_string(split_re.first[i]);
+    word_ids.insert({content, split_re.second[i]});
+    lengths.insert(content.length());
   }
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> result;
-  int start_offset = 0;
-  for (auto match : matches) {
-    int start = std::get<0>(match), stop = std::get<1>(match),
-        id = std::get<2>(match);
-    AddedToken added_token = added_tokens_map_r[id];
-    if (encode_special_tokens &&
-        special_tokens_set.count(added_token.content) > 0) {
-      continue;
-    }
-    if (added_token.single_word) {
-      bool start_space =
-          start == 0 || !ends_with_word(sentence.substr(0, start));
-      bool stop_space =
-          stop == sentence.length() || !starts_with_word(sentence.substr(stop));
-      if (!stop_space || !start_space) {
+  int start_offset = 0, total_len = sentence.length();
+  for (int i = 0; i < total_len; i++) {
+    for (int length : lengths) {
+      int start = i, stop = i + length;
+      if (stop > total_len) {
         continue;
       }
+      auto it = word_ids.find(sentence.substr(start, length));
+      if (it == word_ids.end()) {
+        continue;
+      }
+      const AddedToken& added_token = added_tokens_map_r.at(it->second);
+      if (encode_special_tokens &&
+          special_tokens_set.count(added_token.content) > 0) {
+        continue;
+      }
+      if (added_token.single_word &&
+          ((start > 0 && is_word_char(sentence[start - 1])) ||
+           (stop < total_len && is_word_char(sentence[stop])))) {
+        continue;
+      }
+      while (added_token.lstrip && start > start_offset &&
+             u_isUWhiteSpace(sentence[start - 1])) {
+        start--;
+      }
+      while (added_token.rstrip && stop < total_len &&
+             u_isUWhiteSpace(sentence[stop])) {
+        stop++;
+      }
+      if (start_offset < start) {
+        result.push_back({std::nullopt, {start_offset, start}});
+      }
+      result.push_back({it->second, {start, stop}});
+      start_offset = stop;
+      i = stop - 1;
+      break;
     }
-    if (added_token.lstrip) {
-      int new_start = space_leftmost_at_end(sentence.substr(0, start));
-      start = std::max(new_start, start_offset);
-    }
-    if (added_token.rstrip) {
-      stop += space_rightmost_at_start(sentence.substr(stop));
-    }
-    if (start_offset < start) {
-      result.push_back({std::nullopt, {start_offset, start}});
-    }
-    result.push_back({id, {start, stop}});
-    start_offset = stop;
   }
-  int total_len = unicode_sentence.length();
   if (start_offset != total_len) {
     result.push_back({std::nullopt, {start_offset, total_len}});
   }
@@ -263,7 +231,8 @@ void AddedVocabulary::extract(
       splits.push_back(split);
       continue;
     }
-    for (const auto& match : find_matches(split.normalized, split_re)) {
+    for (const auto& match :
+         find_matches(convert_from_string(split.normalized), split_re)) {
       int start = split.offsets.first + match.second.first;
       int length = match.second.second - match.second.first;
       std::string value = convert_to_string(
-- 
2.43.0


From a41d68842ba440e8a0ae8b170712b3b8bbf55c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 27/47] fix: name an added token by its content

The token string was the matched text, which the normalizer and the stripped
spaces can make different from the string the id stands for.
---
 src/added_vocabulary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 4fb3b86..ab369c3 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -239,7 +239,9 @@ void AddedVocabulary::extract(
           pre_tokenized->normalized.normalized.substr(start, length));
       Split new_split(value, {start, start + length});
       if (match.first.has_value()) {
-        new_split.tokens = {Token(match.first.value(), value, {0, length})};
+        new_split.tokens = {Token(
+            match.first.value(),
+            added_tokens_map_r.at(match.first.value()).content, {0, length})};
       }
       splits.push_back(new_split);
     }
-- 
2.43.0


From aa3618af6d6d3ee7d26b57c132da1257f4777dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 28/47] fix: normalize without an added_tokens section

The normalizer runs as part of extracting the added tokens, and was skipped when
added_tokens is null; registering tokens and decoding dereferenced the missing
vocabulary.
---
 src/tokenizer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 58e163d..9693dd6 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -84,9 +84,11 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
     throw std::runtime_error("Error parsing tokenizer config");
   }
 
-  if (added_vocabulary != nullptr) {
-    add_tokens(added_vocabulary->added_tokens);
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
   }
+  add_tokens(added_vocabulary->added_tokens);
 }
 
 Encoding Tokenizer::encode(const std::wstring& sequence,
-- 
2.43.0


From 84b9d34cf6f576ebba8556e747b68e134a1f88c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 29/47] fix: skip the ids decode does not know

An unknown id threw std::bad_optional_access, or dereferenced a null model.
---
 src/tokenizer.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 9693dd6..38a3870 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -110,15 +110,14 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
                               bool skip_special_tokens) {
   std::vector<std::string> tokens;
   for (int id : ids) {
-    std::string token = "";
-    std::optional<std::string> av_token = added_vocabulary->id_to_token(id);
-    if (!av_token.has_value()) {
-      token = model->id_to_token(id).value();
-    } else {
-      token = av_token.value();
+    std::optional<std::string> token = added_vocabulary->id_to_token(id);
+    if (!token.has_value() && model != nullptr) {
+      token = model->id_to_token(id);
     }
-    if (!skip_special_tokens || !added_vocabulary->is_special_token(token)) {
-      tokens.push_back(token);
+    if (token.has_value() &&
+        !(skip_special_tokens &&
+          added_vocabulary->is_special_token(token.value()))) {
+      tokens.push_back(token.value());
     }
   }
   tokens = decoder->decode_chain(tokens);
-- 
2.43.0


From b385a8446ef0e49775e2734271c29f24f155bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 30/47] fix: decode without a decoder

A null decoder section is accepted, and decode dereferenced it; join the tokens
with spaces instead.
---
 src/tokenizer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 38a3870..2611e7e 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -120,6 +120,13 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
       tokens.push_back(token.value());
     }
   }
+  if (decoder == nullptr) {
+    std::string result;
+    for (size_t i = 0; i < tokens.size(); i++) {
+      result += (i > 0 ? " " : "") + tokens[i];
+    }
+    return result;
+  }
   tokens = decoder->decode_chain(tokens);
   return std::accumulate(tokens.begin(), tokens.end(), std::string{});
 }
-- 
2.43.0


From a26c5a88d91829edc298729abf6cd1c9fb5869dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 31/47] fix: truncate to nothing when max_length is 0

The whole encoding was returned instead.
---
 src/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index efd6d54..2e71680 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -51,8 +51,9 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     return encoding;
   }
   if (max_length == 0) {
-    encoding.overflowing = {};
-    return encoding;
+    Encoding empty_encoding;
+    empty_encoding.overflowing = {encoding};
+    return empty_encoding;
   }
   int offset = max_length - stride;
   bool end = false;
-- 
2.43.0


From f00c4e459ad0d2583e5ff552e792baec011889ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 32/47] fix: step left truncation windows by max_length -
 stride

The body of the loop moved its own counter, so windows overlapped by one token too
few, and never ended when max_length - stride was 1.
---
 src/utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 2e71680..14ae432 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -67,8 +67,7 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
       }
     }
   } else if (direction == LEFT_TRUNCATION_DIRECTION) {
-    for (int stop = encoding.ids.size() - 1; stop >= 0; stop -= offset) {
-      stop += 1;
+    for (int stop = encoding_length; stop > 0; stop -= offset) {
       int start = stop < max_length ? 0 : stop - max_length;
       if (start < stop && !end) {
         end = start == 0;
-- 
2.43.0


From 6900dbd09ce44274e3a86eca6f4f93f119dddc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 33/47] fix: report a stride that leaves no room to truncate

A stride of max_length or more looped forever.
---
 src/utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 14ae432..7ad7f6f 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -55,6 +56,10 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     empty_encoding.overflowing = {encoding};
     return empty_encoding;
   }
+  if (stride < 0 || stride >= max_length) {
+    throw std::invalid_argument(
+        "Truncation stride must be less than the tokens left by max_length!");
+  }
   int offset = max_length - stride;
   bool end = false;
   std::vector<std::pair<int, int>> parts_ranges;
-- 
2.43.0


From 1455bbf760728867c3617eff03d95a61b302e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 34/47] fix: leave room for the special tokens when truncating

The post-processor adds its tokens after truncation, so every truncated encoding
came out longer than max_length.
---
 include/tokenizers/post_processor.h |  4 ++++
 include/tokenizers/utils.h          |  3 ++-
 src/post_processor.cpp              | 22 ++++++++++++++++++++++
 src/tokenizer.cpp                   |  5 ++++-
 src/utils.cpp                       |  4 +++-
 5 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/include/tokenizers/post_processor.h b/include/tokenizers/post_processor.h
index 445c05f..974e038 100644
--- a/include/tokenizers/post_processor.h
+++ b/include/tokenizers/post_processor.h
@@ -43,6 +43,8 @@ class PostProcessor {
   virtual ~PostProcessor() = default;
   virtual Encoding process(Encoding encoding,
                            bool add_special_tokens) const = 0;
+  // the number of special tokens process adds to a sequence
+  virtual int added_tokens() const { return 0; }
 };
 
 std::unique_ptr<PostProcessor> with_post_processor(
@@ -54,6 +56,7 @@ class TemplateProcessing : public PostProcessor {
                      const std::vector<std::pair<std::string, Piece>> &pair,
                      const std::vector<SpecialToken> &special_tokens);
   Encoding process(Encoding encoding, bool add_special_tokens) const override;
+  int added_tokens() const override;
 
  private:
   std::vector<std::pair<std::string, Piece>> single;
@@ -79,6 +82,7 @@ class SequenceProcessing : public PostProcessor {
   explicit SequenceProcessing(
       std::vector<std::unique_ptr<PostProcessor>> processors);
   Encoding process(Encoding encoding, bool add_special_tokens) const override;
+  int added_tokens() const override;
 
  private:
   std::vector<std::unique_ptr<PostProcessor>> processors;
diff --git a/include/tokenizers/utils.h b/include/tokenizers/utils.h
index c4dfab9..007fcfd 100644
--- a/include/tokenizers/utils.h
+++ b/include/tokenizers/utils.h
@@ -32,7 +32,8 @@ class Truncation {
  public:
   Truncation(const std::string &direction, const std::string &strategy,
              int max_length, int stride);
-  Encoding truncate_encoding(Encoding encoding) const;
+  // added_tokens: room to leave for the tokens added after truncation
+  Encoding truncate_encoding(Encoding encoding, int added_tokens = 0) const;
 
  private:
   TRUNCATION_DIRECTION direction;
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index a0b78d8..0ec5742 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -205,6 +205,20 @@ Encoding TemplateProcessing::process(Encoding encoding,
   return result;
 }
 
+int TemplateProcessing::added_tokens() const {
+  int result = 0;
+  for (const auto& piece : single) {
+    for (const auto& special_token : special_tokens) {
+      if (piece.first == "SpecialToken" &&
+          special_token.id == piece.second.id) {
+        result += special_token.ids.size();
+        break;
+      }
+    }
+  }
+  return result;
+}
+
 Encoding ByteLevelProcessing::process_offsets(const Encoding& encoding,
                                               bool add_prefix_space) const {
   Encoding new_encoding = encoding;
@@ -283,3 +297,11 @@ Encoding SequenceProcessing::process(Encoding encoding,
       });
   return encoding;
 }
+
+int SequenceProcessing::added_tokens() const {
+  return std::accumulate(
+      processors.begin(), processors.end(), 0,
+      [](int acc, const std::unique_ptr<PostProcessor>& processor) {
+        return acc + processor->added_tokens();
+      });
+}
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 2611e7e..4b65860 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -172,7 +172,10 @@ Encoding Tokenizer::do_tokenize(PreTokenizedString pre_tokenized,
 Encoding Tokenizer::do_post_process(Encoding encoding,
                                     bool add_special_tokens) const {
   if (truncation != nullptr) {
-    encoding = truncation->truncate_encoding(encoding);
+    int added_tokens = add_special_tokens && post_processor != nullptr
+                           ? post_processor->added_tokens()
+                           : 0;
+    encoding = truncation->truncate_encoding(encoding, added_tokens);
   }
   if (post_processor != nullptr) {
     encoding = post_processor->process(encoding, add_special_tokens);
diff --git a/src/utils.cpp b/src/utils.cpp
index 7ad7f6f..7e874ac 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -119,7 +119,9 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
   return new_encoding;
 }
 
-Encoding Truncation::truncate_encoding(Encoding encoding) const {
+Encoding Truncation::truncate_encoding(Encoding encoding,
+                                       int added_tokens) const {
+  int max_length = std::max(0, this->max_length - added_tokens);
   if (max_length == 0) {
     return truncate(encoding, 0, stride, direction);
   }
-- 
2.43.0


From 1ec166b62f15113ea00d85d551d72a3c9a58b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 35/47] fix: keep the overflow in TemplateProcessing

The overflowing pieces were dropped, and with them every truncated token.
---
 src/post_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 0ec5742..f37fca0 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -182,6 +182,10 @@ Encoding TemplateProcessing::process(Encoding encoding,
     }
   }
   Encoding result;
+  for (const Encoding& overflowing_encoding : encoding.overflowing) {
+    result.overflowing.push_back(
+        process(overflowing_encoding, add_special_tokens));
+  }
   for (Encoding final_encoding : final_encodings) {
     result.ids.insert(result.ids.end(), final_encoding.ids.begin(),
                       final_encoding.ids.end());
-- 
2.43.0


From 55500f76e61a9abe0dec6725d00e2eadbc5cf295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 36/47] fix: reject unknown truncation and padding parameters

An unknown direction read from an empty list of windows or padded nothing, an
unknown strategy truncated nothing, and negative sizes made every encode throw.
A null takes the default of the library this one follows.
---
 src/utils.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 7e874ac..114e8fc 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -43,7 +43,13 @@ Truncation::Truncation(const std::string& direction,
     : direction(get_truncation_direction(direction)),
       strategy(get_truncation_strategy(strategy)),
       max_length(max_length),
-      stride(stride) {}
+      stride(stride) {
+  if (this->direction == UNKNOWN_TRUNCATION_DIRECTION ||
+      this->strategy == UNKNOWN_TRUNCATION_STRATEGY || max_length < 0 ||
+      stride < 0) {
+    throw std::invalid_argument("Invalid truncation parameters!");
+  }
+}
 
 Encoding truncate(Encoding encoding, int max_length, int stride,
                   TRUNCATION_DIRECTION direction) {
@@ -147,12 +153,12 @@ std::unique_ptr<Truncation> with_truncation(
   val = truncation_params["direction"].value();
   std::string direction =
       std::string(val.type() == simdjson::ondemand::json_type::null
-                      ? ""
+                      ? "Right"
                       : static_cast<std::string_view>(val.get_string()));
   val = truncation_params["strategy"].value();
   std::string strategy =
       std::string(val.type() == simdjson::ondemand::json_type::null
-                      ? ""
+                      ? "LongestFirst"
                       : static_cast<std::string_view>(val.get_string()));
   val = truncation_params["max_length"].value();
   int max_length = val.type() == simdjson::ondemand::json_type::null
@@ -198,7 +204,14 @@ Padding::Padding(const std::string& direction, const std::string& strategy,
       pad_id(pad_id),
       pad_type_id(pad_type_id),
       pad_token(pad_token),
-      pad_to_multiple_of(pad_to_multiple_of) {}
+      pad_to_multiple_of(pad_to_multiple_of) {
+  if (this->direction == UNKNOWN_PADDING_DIRECTION ||
+      this->strategy == UNKNOWN_PADDING_STRATEGY ||
+      (this->strategy == FIXED_PADDING_STRATEGY && fixed_size < 0) ||
+      pad_to_multiple_of < 0) {
+    throw std::invalid_argument("Invalid padding parameters!");
+  }
+}
 
 Encoding pad(Encoding encoding, int target_length, int pad_id, int pad_type_id,
              std::string pad_token, PADDING_DIRECTION direction) {
@@ -252,11 +265,11 @@ std::unique_ptr<Padding> with_padding(
   val = padding_params["direction"].value();
   std::string direction =
       std::string(val.type() == simdjson::ondemand::json_type::null
-                      ? ""
+                      ? "Right"
                       : static_cast<std::string_view>(val.get_string()));
   val = padding_params["strategy"].value();
   int fixed_size = -1;
-  std::string strategy;
+  std::string strategy = "BatchLongest";
   if (val.type() != simdjson::ondemand::json_type::null) {
     if (val.type() == simdjson::ondemand::json_type::object) {
       simdjson::ondemand::object strategy_obj = val.get_object().value();
-- 
2.43.0


From 4b96b364081234775f5a26f9d740ae54a028bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 37/47] fix: reject a template whose special tokens are
 inconsistent

A special token with more ids than tokens gave encodings whose columns differ in
length, and one that is not defined was silently left out.
---
 src/post_processor.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index f37fca0..41f06c0 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -100,9 +101,21 @@ std::unique_ptr<PostProcessor> with_post_processor(
           tokens.push_back(std::string(
               static_cast<std::string_view>(token_elem.value().get_string())));
         }
+        if (ids.size() != tokens.size()) {
+          throw std::invalid_argument("Special token ids and tokens differ!");
+        }
         special_tokens.push_back(SpecialToken(id, ids, tokens));
       }
     }
+    for (const auto& piece : single) {
+      if (piece.first == "SpecialToken" &&
+          std::none_of(special_tokens.begin(), special_tokens.end(),
+                       [&piece](const SpecialToken& special_token) {
+                         return special_token.id == piece.second.id;
+                       })) {
+        throw std::invalid_argument("Unknown special token in the template!");
+      }
+    }
     return std::make_unique<TemplateProcessing>(
         TemplateProcessing(single, pair, special_tokens));
   } else if (get_post_processor(type) == SEQUENCE_PROCESSING) {
-- 
2.43.0


From 6087e4e98db9c3da38108cf24e7d853b4defc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 38/47] fix: reject a padding strategy object that names no
 strategy

An empty object was taken for BatchLongest.
---
 src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 114e8fc..1e8dc26 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -273,6 +273,7 @@ std::unique_ptr<Padding> with_padding(
   if (val.type() != simdjson::ondemand::json_type::null) {
     if (val.type() == simdjson::ondemand::json_type::object) {
       simdjson::ondemand::object strategy_obj = val.get_object().value();
+      strategy.clear();
       for (auto field : strategy_obj) {
         strategy =
             std::string(static_cast<std::string_view>(field.unescaped_key()));
-- 
2.43.0


From 7b490c63d9bb270ad8a363c5e7ce56ee16d11d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 39/47] fix: reject a template piece of no known kind

An empty piece or one of an unknown kind was silently ignored.
---
 src/post_processor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 41f06c0..d43b6b3 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -52,6 +52,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
       simdjson::ondemand::array single_array = val.get_array();
       for (auto element : single_array) {
         simdjson::ondemand::object map_piece = element.get_object().value();
+        size_t pieces = single.size();
         for (auto field : map_piece) {
           type =
               std::string(static_cast<std::string_view>(field.unescaped_key()));
@@ -61,6 +62,9 @@ std::unique_ptr<PostProcessor> with_post_processor(
           int type_id = static_cast<int>(val["type_id"].value().get_int64());
           single.push_back({type, Piece(id, type_id)});
         }
+        if (single.size() == pieces) {
+          throw std::invalid_argument("Empty piece in the template!");
+        }
       }
     }
     val = post_processor_params["pair"].value();
@@ -108,6 +112,9 @@ std::unique_ptr<PostProcessor> with_post_processor(
       }
     }
     for (const auto& piece : single) {
+      if (piece.first != "Sequence" && piece.first != "SpecialToken") {
+        throw std::invalid_argument("Unknown piece in the template!");
+      }
       if (piece.first == "SpecialToken" &&
           std::none_of(special_tokens.begin(), special_tokens.end(),
                        [&piece](const SpecialToken& special_token) {
-- 
2.43.0


From fd63d6d6c5b76ef2b29b805147cdc68ef60aa672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 40/47] fix: never look for an empty added token

The content of a token that is only an incomplete UTF-8 sequence converts to
an empty text, which was found at every position: encode did not end.
---
 src/added_vocabulary.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index ab369c3..04ed509 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -155,6 +155,9 @@ AddedVocabulary::find_matches(
   std::set<int, std::greater<int>> lengths;
   for (int i = 0; i < split_re.first.size(); ++i) {
     std::wstring content = convert_from_string(split_re.first[i]);
+    if (content.empty()) {
+      continue;
+    }
     word_ids.insert({content, split_re.second[i]});
     lengths.insert(content.length());
   }
-- 
2.43.0


From 81070fc456ce32ed2c95e2a7066fbed9b8874f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 41/47] fix: apply a queued merge only while its own pair is
 there

---
 src/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index af79aec..efd5896 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -265,7 +265,7 @@ void Word::merge_all(
     const Symbol& right = symbols[next_pos];
     std::pair<int, int> target_new_pair = {symbols[top.pos].c, right.c};
     auto target_it = merges.find(target_new_pair);
-    if (target_it == merges.end() || target_it->second.second != top.new_id) {
+    if (target_it == merges.end() || target_it->second.first != top.rank) {
       continue;
     }
     symbols[top.pos].merge_with(&right, top.new_id);
-- 
2.43.0


From 3f6491afa08198dd8399c4b287540ec52fb4fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 42/47] fix: reject a configuration that is not JSON as a whole

---
 src/tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 4b65860..f385bb5 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -37,6 +37,9 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
     } else {
       tokenizer_json_str = simdjson::padded_string(config);
     }
+    // the on-demand parser only looks at what is asked for
+    simdjson::dom::parser validator;
+    validator.parse(tokenizer_json_str).value();
     simdjson::ondemand::document tokenizer_json =
         parser.iterate(tokenizer_json_str);
 
-- 
2.43.0


From 32b5b743a9da4b12c0590ec0195208d4eb654caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:33 +0000
Subject: [PATCH 43/47] fix: reject numbers that do not fit an int

---
 include/tokenizers/common.h |  4 ++++
 src/added_vocabulary.cpp    |  2 +-
 src/common.cpp              | 10 ++++++++++
 src/decoder.cpp             |  4 ++--
 src/model.cpp               |  2 +-
 src/post_processor.cpp      |  6 +++---
 src/utils.cpp               | 14 +++++++-------
 7 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/include/tokenizers/common.h b/include/tokenizers/common.h
index 8b940f2..bcf6369 100644
--- a/include/tokenizers/common.h
+++ b/include/tokenizers/common.h
@@ -9,6 +9,8 @@
 #include <utility>
 #include <vector>
 
+#include "simdjson.h"
+
 class Encoding {
  public:
   std::vector<int> ids;
@@ -62,3 +64,5 @@ std::string convert_to_string(std::wstring sequence);
 std::wstring convert_from_string(std::string sequence);
 
 std::unordered_map<uint16_t, std::string> bytes_char();
+
+int get_int(simdjson::ondemand::value json_value);
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 04ed509..a12662e 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -261,7 +261,7 @@ std::unique_ptr<AddedVocabulary> with_added_vocabulary(
     for (auto element : added_token_param) {
       auto key = element.unescaped_key();
       if (key.value() == "id") {
-        added_token.id = static_cast<int>(element.value().get_int64());
+        added_token.id = get_int(element.value());
       } else if (key.value() == "content") {
         added_token.content = std::string(
             static_cast<std::string_view>(element.value().get_string()));
diff --git a/src/common.cpp b/src/common.cpp
index 96bf512..159bfbc 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <stdexcept>
 #include <string>
@@ -117,3 +118,12 @@ std::unordered_map<uint16_t, std::string> bytes_char() {
   }
   return result;
 }
+
+int get_int(simdjson::ondemand::value json_value) {
+  int64_t number = json_value.get_int64();
+  if (number < std::numeric_limits<int>::min() ||
+      number > std::numeric_limits<int>::max()) {
+    throw std::out_of_range("Number does not fit an int!");
+  }
+  return static_cast<int>(number);
+}
diff --git a/src/decoder.cpp b/src/decoder.cpp
index 628c1c5..73e1180 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -76,11 +76,11 @@ std::unique_ptr<Decoder> with_decoder(
     val = decoder_params["start"].value();
     int start = val.type() == simdjson::ondemand::json_type::null
                     ? 0
-                    : static_cast<int>(val.get_int64());
+                    : get_int(val);
     val = decoder_params["stop"].value();
     int stop = val.type() == simdjson::ondemand::json_type::null
                    ? 0
-                   : static_cast<int>(val.get_int64());
+                   : get_int(val);
     return std::make_unique<StripDecoder>(StripDecoder(content, start, stop));
   } else if (get_decoder(type) == REPLACE_DECODER) {
     val = decoder_params["pattern"].value();
diff --git a/src/model.cpp b/src/model.cpp
index efd5896..9632929 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -55,7 +55,7 @@ std::unique_ptr<Model> with_model(simdjson::ondemand::object model_params) {
     int max_input_chars_per_word =
         val.type() == simdjson::ondemand::json_type::null
             ? 0
-            : static_cast<int>(val.get_int64());
+            : get_int(val);
     val = model_params["continuing_subword_prefix"].value();
     std::string continuing_subword_prefix =
         val.type() == simdjson::ondemand::json_type::null
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index d43b6b3..6e3aa36 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -59,7 +59,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
-          int type_id = static_cast<int>(val["type_id"].value().get_int64());
+          int type_id = get_int(val["type_id"].value());
           single.push_back({type, Piece(id, type_id)});
         }
         if (single.size() == pieces) {
@@ -79,7 +79,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
-          int type_id = static_cast<int>(val["type_id"].value().get_int64());
+          int type_id = get_int(val["type_id"].value());
           pair.push_back({type, Piece(id, type_id)});
         }
       }
@@ -96,7 +96,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         auto ids_val = val["ids"].value();
         simdjson::ondemand::array ids_array = ids_val.get_array();
         for (auto id_elem : ids_array) {
-          ids.push_back(static_cast<int>(id_elem.value().get_int64()));
+          ids.push_back(get_int(id_elem.value()));
         }
         std::vector<std::string> tokens;
         auto tokens_val = val["tokens"].value();
diff --git a/src/utils.cpp b/src/utils.cpp
index 1e8dc26..2707d89 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -163,11 +163,11 @@ std::unique_ptr<Truncation> with_truncation(
   val = truncation_params["max_length"].value();
   int max_length = val.type() == simdjson::ondemand::json_type::null
                        ? 0
-                       : static_cast<int>(val.get_int64());
+                       : get_int(val);
   val = truncation_params["stride"].value();
   int stride = val.type() == simdjson::ondemand::json_type::null
                    ? 0
-                   : static_cast<int>(val.get_int64());
+                   : get_int(val);
   return std::make_unique<Truncation>(
       Truncation(direction, strategy, max_length, stride));
 }
@@ -277,7 +277,7 @@ std::unique_ptr<Padding> with_padding(
       for (auto field : strategy_obj) {
         strategy =
             std::string(static_cast<std::string_view>(field.unescaped_key()));
-        fixed_size = static_cast<int>(field.value().get_int64());
+        fixed_size = get_int(field.value());
       }
     } else {
       strategy = std::string(static_cast<std::string_view>(val.get_string()));
@@ -286,11 +286,11 @@ std::unique_ptr<Padding> with_padding(
   val = padding_params["pad_id"].value();
   int pad_id = val.type() == simdjson::ondemand::json_type::null
                    ? 0
-                   : static_cast<int>(val.get_int64());
+                   : get_int(val);
   val = padding_params["pad_type_id"].value();
   int pad_type_id = val.type() == simdjson::ondemand::json_type::null
                         ? 0
-                        : static_cast<int>(val.get_int64());
+                        : get_int(val);
   val = padding_params["pad_token"].value();
   std::string pad_token =
       std::string(val.type() == simdjson::ondemand::json_type::null
@@ -299,7 +299,7 @@ std::unique_ptr<Padding> with_padding(
   val = padding_params["pad_to_multiple_of"].value();
   int pad_to_multiple_of = val.type() == simdjson::ondemand::json_type::null
                                ? 0
-                               : static_cast<int>(val.get_int64());
+                               : get_int(val);
   return std::make_unique<Padding>(Padding(direction, strategy, fixed_size,
                                            pad_id, pad_type_id, pad_token,
                                            pad_to_multiple_of));
@@ -311,7 +311,7 @@ std::unordered_map<std::string, int> get_map_ints_from_json(
   for (auto element : json_object) {
     result.insert(
         {std::string(static_cast<std::string_view>(element.unescaped_key())),
-         static_cast<int>(element.value().get_int64())});
+         get_int(element.value())});
   }
   return result;
 }
-- 
2.43.0


From 97cd34e693d375f9ab1024fb279e1f0474424bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 44/47] fix: android: encode characters outside the BMP

A jstring is UTF-16; copying its units to a wstring turned each such
character into two surrogates.
---
 .../src/main/cpp/tokenizers_android_jni.cpp              | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 080695d..1022f13 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -1,4 +1,5 @@
 #include <jni.h>
+#include <unicode/utf16.h>
 
 #include <string>
 #include <vector>
@@ -20,7 +21,13 @@ Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
   Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
   const jchar *sequence_str = env->GetStringChars(sequence, nullptr);
   jsize sequence_length = env->GetStringLength(sequence);
-  std::wstring wsequence(sequence_str, sequence_str + sequence_length);
+  std::wstring wsequence;
+  wsequence.reserve(sequence_length);
+  for (jsize i = 0; i < sequence_length;) {
+    UChar32 character;
+    U16_NEXT(sequence_str, i, sequence_length, character);
+    wsequence.push_back(static_cast<wchar_t>(character));
+  }
   env->ReleaseStringChars(sequence, sequence_str);
   Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
   jintArray ids_array = env->NewIntArray(encoding.ids.size());
-- 
2.43.0


From 2bcd5add5503d16a0e3de8a3599d8409c5dec81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 45/47] fix: android: decode returns the whole text

NewStringUTF takes modified UTF-8 and stops at NUL: characters outside
the BMP were garbled, and text after U+0000 was lost.
---
 .../src/main/cpp/tokenizers_android_jni.cpp                  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 1022f13..1403638 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -1,4 +1,5 @@
 #include <jni.h>
+#include <unicode/unistr.h>
 #include <unicode/utf16.h>
 
 #include <string>
@@ -44,5 +45,7 @@ extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
   std::vector<int> ids_vector(ids_array, ids_array + length);
   env->ReleaseIntArrayElements(ids, ids_array, 0);
   std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
-  return env->NewStringUTF(decoded.c_str());
+  icu::UnicodeString text = icu::UnicodeString::fromUTF8(decoded);
+  return env->NewString(reinterpret_cast<const jchar *>(text.getBuffer()),
+                        text.length());
 }
\ No newline at end of file
-- 
2.43.0


From 7782ec73eec43678f1c3fd7d2a11ffc1048a286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 46/47] fix: android: read the configuration as UTF-8

GetStringUTFChars gives modified UTF-8, which is no JSON text when the
vocabulary has characters outside the BMP.
---
 .../src/main/cpp/tokenizers_android_jni.cpp            | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 1403638..5ef265c 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -10,9 +10,13 @@
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
-  const char *config_str = env->GetStringUTFChars(config, nullptr);
-  Tokenizer *tokenizer = new Tokenizer("", std::string(config_str));
-  env->ReleaseStringUTFChars(config, config_str);
+  const jchar *config_str = env->GetStringChars(config, nullptr);
+  icu::UnicodeString config_text(reinterpret_cast<const UChar *>(config_str),
+                                 env->GetStringLength(config));
+  env->ReleaseStringChars(config, config_str);
+  std::string config_utf8;
+  config_text.toUTF8String(config_utf8);
+  Tokenizer *tokenizer = new Tokenizer("", config_utf8);
   return (jlong)tokenizer;
 }
 extern "C" JNIEXPORT jintArray JNICALL
-- 
2.43.0


From 5342c28d7e1ceb3146aa0a391db279e78edfbf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 47/47] fix: android: failures are Java exceptions

An exception of the tokenizer, or a null argument, ended the process.
---
 .../src/main/cpp/tokenizers_android_jni.cpp   | 45 ++++++++++++++++---
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 5ef265c..84c8627 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -2,14 +2,36 @@
 #include <unicode/unistr.h>
 #include <unicode/utf16.h>
 
+#include <exception>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
 #include "tokenizers/tokenizer.h"
 
+namespace {
+
+jstring to_jstring(JNIEnv *env, const std::string &utf8) {
+  icu::UnicodeString text = icu::UnicodeString::fromUTF8(utf8);
+  return env->NewString(reinterpret_cast<const jchar *>(text.getBuffer()),
+                        text.length());
+}
+
+// C++ exceptions must not cross the JNI boundary
+void throw_java(JNIEnv *env, const std::exception &e) {
+  jclass exception_class = env->FindClass("java/lang/RuntimeException");
+  jmethodID constructor = env->GetMethodID(exception_class, "<init>",
+                                           "(Ljava/lang/String;)V");
+  env->Throw(static_cast<jthrowable>(env->NewObject(
+      exception_class, constructor, to_jstring(env, e.what()))));
+}
+
+}  // namespace
+
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
-                                                 jstring config) {
+                                                 jstring config) try {
+  if (config == nullptr) throw std::invalid_argument("config is null");
   const jchar *config_str = env->GetStringChars(config, nullptr);
   icu::UnicodeString config_text(reinterpret_cast<const UChar *>(config_str),
                                  env->GetStringLength(config));
@@ -18,11 +40,15 @@ Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
   config_text.toUTF8String(config_utf8);
   Tokenizer *tokenizer = new Tokenizer("", config_utf8);
   return (jlong)tokenizer;
+} catch (const std::exception &e) {
+  throw_java(env, e);
+  return 0;
 }
 extern "C" JNIEXPORT jintArray JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
                                            jlong native_ptr, jstring sequence,
-                                           jboolean add_special_tokens) {
+                                           jboolean add_special_tokens) try {
+  if (sequence == nullptr) throw std::invalid_argument("sequence is null");
   Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
   const jchar *sequence_str = env->GetStringChars(sequence, nullptr);
   jsize sequence_length = env->GetStringLength(sequence);
@@ -39,17 +65,22 @@ Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
   env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
                          encoding.ids.data());
   return ids_array;
+} catch (const std::exception &e) {
+  throw_java(env, e);
+  return nullptr;
 }
 extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
     JNIEnv *env, jobject thiz, jlong native_ptr, jintArray ids,
-    jboolean skip_special_tokens) {
+    jboolean skip_special_tokens) try {
+  if (ids == nullptr) throw std::invalid_argument("ids is null");
   Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
   jsize length = env->GetArrayLength(ids);
   jint *ids_array = env->GetIntArrayElements(ids, nullptr);
   std::vector<int> ids_vector(ids_array, ids_array + length);
   env->ReleaseIntArrayElements(ids, ids_array, 0);
   std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
-  icu::UnicodeString text = icu::UnicodeString::fromUTF8(decoded);
-  return env->NewString(reinterpret_cast<const jchar *>(text.getBuffer()),
-                        text.length());
-}
\ No newline at end of file
+  return to_jstring(env, decoded);
+} catch (const std::exception &e) {
+  throw_java(env, e);
+  return nullptr;
+}
-- 
2.43.0

