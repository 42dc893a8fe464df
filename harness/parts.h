// Calls on the library's parts as a C++ program makes them: built by their constructors
// (build_*), looked into (lookup, reg), and the helpers they share.
#pragma once
#include <type_traits>

static std::string text_of(const J& j, const char* key) { return j[key].get<std::string>(); }

static std::unique_ptr<Normalizer> build_norm(const J& j, int args) {
  std::string t = text_of(j, "type");
  if (t == "NFC") return std::make_unique<NFC>();
  if (t == "NFD") return std::make_unique<NFD>();
  if (t == "NFKC") return std::make_unique<NFKC>();
  if (t == "NFKD") return std::make_unique<NFKD>();
  if (t == "StripAccents") return std::make_unique<StripAccents>();
  if (t == "Prepend") return std::make_unique<Prepend>(text_of(j, "prepend"));
  if (t == "Replace") return std::make_unique<Replace>(j["pattern"]["String"].get<std::string>(), text_of(j, "content"));
  if (t == "Strip") return std::make_unique<Strip>(j["strip_left"].get<bool>(), j["strip_right"].get<bool>());
  if (t == "BertNormalizer") {
    bool a = j["clean_text"].get<bool>(), b = j["handle_chinese_chars"].get<bool>(), c = j["strip_accents"].get<bool>(), d = j["lowercase"].get<bool>();
    switch (args) {
      case 0: return std::make_unique<BertNormalizer>();
      case 1: return std::make_unique<BertNormalizer>(a);
      case 2: return std::make_unique<BertNormalizer>(a, b);
      case 3: return std::make_unique<BertNormalizer>(a, b, c);
      default: return std::make_unique<BertNormalizer>(a, b, c, d);
    }
  }
  std::vector<std::unique_ptr<Normalizer>> l;
  for (const auto& x : j["normalizers"]) l.push_back(build_norm(x, -1));
  return std::make_unique<SequenceNormalizer>(std::move(l));
}
static std::unique_ptr<PreTokenizer> build_pre(const J& j) {
  std::string t = text_of(j, "type");
  if (t == "BertPreTokenizer") return std::make_unique<BertPreTokenizer>();
  if (t == "Split") return std::make_unique<SplitPreTokenizer>(j["pattern"]["Regex"].get<std::string>(), text_of(j, "behavior"), j["invert"].get<bool>());
  if (t == "ByteLevel") return std::make_unique<ByteLevelPreTokenizer>(j["add_prefix_space"].get<bool>(), j["use_regex"].get<bool>());
  std::vector<std::unique_ptr<PreTokenizer>> l;
  for (const auto& x : j["pretokenizers"]) l.push_back(build_pre(x));
  return std::make_unique<SequencePreTokenizer>(std::move(l));
}
static std::string or_empty(const J& j, const char* key) { return j[key].is_null() ? "" : j[key].get<std::string>(); }
static std::unique_ptr<Model> build_model(const J& j, int args) {
  std::unordered_map<std::string, int> v;
  for (auto it = j["vocab"].begin(); it != j["vocab"].end(); ++it) v[it.key()] = it.value().get<int>();
  if (text_of(j, "type") == "WordPiece") {
    std::string unk = text_of(j, "unk_token"), cont = text_of(j, "continuing_subword_prefix");
    int max = j["max_input_chars_per_word"].get<int>();
    switch (args) {
      case 0: return std::make_unique<WordPiece>(v);
      case 1: return std::make_unique<WordPiece>(v, unk);
      case 2: return std::make_unique<WordPiece>(v, unk, max);
      default: return std::make_unique<WordPiece>(v, unk, max, cont);
    }
  }
  return std::make_unique<BPE>(v, j["merges"].get<std::vector<std::string>>(), j["dropout"].is_null() ? 0.0f : j["dropout"].get<float>(), or_empty(j, "unk_token"),
                               or_empty(j, "continuing_subword_prefix"), or_empty(j, "end_of_word_suffix"), j["fuse_unk"].get<bool>(), j["byte_fallback"].get<bool>(),
                               j["ignore_merges"].get<bool>());
}
static std::vector<std::pair<std::string, Piece>> pieces(const J& j) {
  std::vector<std::pair<std::string, Piece>> r;
  for (const auto& x : j) {
    for (auto it = x.begin(); it != x.end(); ++it) r.push_back({it.key(), Piece(it.value()["id"].get<std::string>(), it.value()["type_id"].get<int>())});
  }
  return r;
}
static std::unique_ptr<PostProcessor> build_post(const J& j) {
  std::string t = text_of(j, "type");
  if (t == "ByteLevel") return std::make_unique<ByteLevelProcessing>(j["add_prefix_space"].get<bool>(), j["trim_offsets"].get<bool>());
  if (t == "TemplateProcessing") {
    std::vector<SpecialToken> specials;
    for (const auto& s : j["special_tokens"]) {
      specials.push_back(SpecialToken(s["id"].get<std::string>(), s["ids"].get<std::vector<int>>(), s["tokens"].get<std::vector<std::string>>()));
    }
    return std::make_unique<TemplateProcessing>(pieces(j["single"]), pieces(j["pair"]), specials);
  }
  std::vector<std::unique_ptr<PostProcessor>> l;
  for (const auto& x : j["processors"]) l.push_back(build_post(x));
  return std::make_unique<SequenceProcessing>(std::move(l));
}
static std::unique_ptr<Decoder> build_dec(const J& j, int args) {
  std::string t = text_of(j, "type");
  if (t == "WordPiece") {
    if (args == 0) return std::make_unique<WordPieceDecoder>();
    if (args == 1) return std::make_unique<WordPieceDecoder>(text_of(j, "prefix"));
    return std::make_unique<WordPieceDecoder>(text_of(j, "prefix"), j["cleanup"].get<bool>());
  }
  if (t == "Replace") return std::make_unique<ReplaceDecoder>(j["pattern"]["String"].get<std::string>(), text_of(j, "content"));
  if (t == "Strip") return std::make_unique<StripDecoder>(text_of(j, "content"), j["start"].get<int>(), j["stop"].get<int>());
  if (t == "ByteFallback") return std::make_unique<ByteFallbackDecoder>();
  if (t == "Fuse") return std::make_unique<FuseDecoder>();
  if (t == "ByteLevel") return std::make_unique<ByteLevelDecoder>();
  std::vector<std::unique_ptr<Decoder>> l;
  for (const auto& x : j["decoders"]) l.push_back(build_dec(x, -1));
  return std::make_unique<SequenceDecoder>(std::move(l));
}

static J maybe(const std::optional<std::string>& t) { return t.has_value() ? J::array({points(*t)}) : J::array(); }

// a token given with only its first n constructor arguments
static AddedToken part_token(const J& t) {
  std::string c = utf8(t["content"]);
  bool sw = t["sw"].get<bool>(), ls = t["ls"].get<bool>(), rs = t["rs"].get<bool>(), nz = t["nz"].get<bool>(), sp = t["sp"].get<bool>();
  switch (t.value("args", 7)) {
    case 2: return AddedToken(0, c);
    case 3: return AddedToken(0, c, sw);
    case 4: return AddedToken(0, c, sw, ls);
    case 5: return AddedToken(0, c, sw, ls, rs);
    case 6: return AddedToken(0, c, sw, ls, rs, nz);
    default: return AddedToken(0, c, sw, ls, rs, nz, sp);
  }
}

template <class T>
static void move_tokenizer(std::unique_ptr<T>* t) {
  if constexpr (std::is_move_constructible_v<T>) {
    auto moved = std::make_unique<T>(std::move(**t));
    *t = std::move(moved);
  }
}

// true when the call is one of those here
static bool part_value(Session* ses, const J& c, J* res) {
  std::string op = c["op"];
  bool direct = c.value("direct", false);
  int args = c.value("args", -1);
  J j = c.contains("json") ? J::parse(c["json"].get<std::string>()) : J();
  if (op == "norm" && direct) {
    NormalizedString r = build_norm(j, args)->normalize(c.contains("bare") ? NormalizedString(wide(c["in"]["c"])) : json_norm(c["in"]));
    *res = J{{"c", cps(r.normalized)}, {"o", ranges(r.offsets)}};
    return true;
  }
  if (op == "pre" && direct) {
    *res = pt_json(build_pre(j)->pre_tokenize(c.contains("bare") ? PreTokenizedString(NormalizedString(wide(c["n"]["c"]))) : make_pt(c)));
    return true;
  }
  if ((op == "model" && direct) || op == "lookup") {
    std::unique_ptr<Model> m;
    if (direct) {
      m = build_model(j, args);
    } else {
      Doc d(c["json"]);
      m = with_model(d.object());
    }
    *res = J::array();
    if (op == "lookup") {
      J ids = J::array(), toks = J::array();
      for (const auto& t : c["ask"]) {
        auto id = m->token_to_id(utf8(t));
        ids.push_back(id.has_value() ? J::array({*id}) : J::array());
      }
      for (const auto& i : c["ids"]) toks.push_back(maybe(m->id_to_token(i.get<int>())));
      *res = J{{"size", m->get_vocab_size()}, {"ids", ids}, {"toks", toks}};
      return true;
    }
    for (const auto& w : c["words"]) {
      PreTokenizedString pt{NormalizedString(wide(w))};
      pt = m->tokenize(pt);
      J ts = J::array();
      for (const auto& t : pt.splits.at(0).tokens) ts.push_back(J::array({t.id, points(t.value), t.offsets.first, t.offsets.second}));
      res->push_back(ts);
    }
    return true;
  }
  if ((op == "chain" || op == "join") && direct) {
    std::vector<std::string> in;
    for (const auto& t : c["toks"]) in.push_back(bytes(t));
    J out = J::array();
    std::string all;
    for (const auto& t : build_dec(j, args)->decode_chain(in)) {
      out.push_back(bytes_of(t));
      all += t;
    }
    *res = op == "join" ? bytes_of(all) : out;
    return true;
  }
  if (op == "trunc" && direct) {
    Truncation t(text_of(j, "direction"), text_of(j, "strategy"), j["max_length"].get<int>(), j["stride"].get<int>());
    *res = enc_json(t.truncate_encoding(json_enc(c["e"])));
    return true;
  }
  if (op == "pad" && direct) {
    bool fixed = j["strategy"].is_object();
    Padding p(text_of(j, "direction"), fixed ? "Fixed" : "BatchLongest", fixed ? j["strategy"]["Fixed"].get<int>() : c.value("size", 0), j["pad_id"].get<int>(),
              j["pad_type_id"].get<int>(), text_of(j, "pad_token"), j["pad_to_multiple_of"].is_null() ? 0 : j["pad_to_multiple_of"].get<int>());
    *res = enc_json(p.pad_encoding(json_enc(c["e"])));
    return true;
  }
  if (op == "post" && direct) {
    *res = enc_json(build_post(j)->process(json_enc(c["e"]), c["special"].get<bool>()));
    return true;
  }
  if (op == "reg") {  // an added vocabulary of one's own
    std::unique_ptr<Model> m = c["model"].is_null() ? nullptr : build_model(c["model"], -1);
    std::unique_ptr<Normalizer> n = c["norm"].is_null() ? nullptr : build_norm(c["norm"], -1);
    AddedVocabulary av{std::vector<AddedToken>()};
    J counts = J::array(), toks = J::array(), special = J::array(), found = J::array();
    for (const auto& b : c["batches"]) {
      std::vector<AddedToken> v;
      for (const auto& t : b["toks"]) v.push_back(part_token(t));
      counts.push_back(b["via"].get<bool>() ? av.add_special_tokens(v, m.get(), n.get()) : av.add_tokens(v, m.get(), n.get()));
    }
    for (const auto& i : c["ids"]) toks.push_back(maybe(av.id_to_token(i.get<int>())));
    for (const auto& t : c["ask"]) special.push_back(av.is_special_token(utf8(t)));
    for (const auto& t : c["texts"]) {
      PreTokenizedString pt = av.extract_and_normalize(n.get(), wide(t));
      J s = J::array();
      for (const auto& x : pt.splits) {
        J ts = J::array();
        for (const auto& k : x.tokens) ts.push_back(J::array({k.id, points(k.value), k.offsets.first, k.offsets.second}));
        s.push_back(J{{"x", points(x.normalized)}, {"i", x.offsets.first}, {"j", x.offsets.second}, {"t", ts}});
      }
      found.push_back(J{{"c", cps(pt.normalized.normalized)}, {"o", ranges(pt.normalized.offsets)}, {"s", s}});
    }
    *res = J{{"counts", counts}, {"toks", toks}, {"special", special}, {"found", found}};
    return true;
  }
  if (op == "cut") {  // a splitting rule of one's own: the characters of a set, alone or in runs
    std::vector<long> set = c["set"].get<std::vector<long>>();
    bool runs = c["runs"].get<bool>();
    PreTokenizedString pt = make_pt(c);
    pt.split(
        [&](icu::UnicodeString t) {
          std::vector<std::pair<std::pair<int, int>, bool>> r;
          for (int i = 0; i < t.length();) {
            int e = t.moveIndex32(i, 1);
            bool m = std::find(set.begin(), set.end(), static_cast<long>(t.char32At(i))) != set.end();
            if (!r.empty() && r.back().second == m && (!m || runs)) {
              r.back().first.second = e;
            } else {
              r.push_back({{i, e}, m});
            }
            i = e;
          }
          return r;
        },
        get_split_delimiter_behavior(c["beh"].get<std::string>()));
    *res = pt_json(pt);
    return true;
  }
  if (op == "word") {  // merging symbols of one's own
    Word w;
    for (const auto& s : c["syms"]) w.add(s[0].get<int>(), s[1].get<int>(), s[2].get<int>());
    std::unordered_map<std::pair<int, int>, std::pair<int, int>, PairHash> merges;
    for (const auto& t : c["tbl"]) merges[{t[0].get<int>(), t[1].get<int>()}] = {t[2].get<int>(), t[3].get<int>()};
    w.merge_all(merges, static_cast<float>(c["drop"].get<int>()));
    *res = J::array();
    for (const auto& s : w.symbols) res->push_back(J::array({s.c, s.pos, s.len}));
    return true;
  }
  if (op == "bytemap") {
    auto m = bytes_char();
    *res = J::array();
    for (int b = 0; b < 256; b++) res->push_back(points(m.at(b)));
    if (m.size() != 256) res->push_back(J::array());
    return true;
  }
  if (op == "move") {
    move_tokenizer(&ses->toks.at(c["k"].get<int>() - 1));
    *res = c["k"];
    return true;
  }
  if (op == "sweep") {
    std::string comp = c["comp"];
    std::wstring pre = wide(c["pre"]), suf = wide(c["suf"]);
    if (comp == "toutf8") {
      *res = sweep(c, [&](int x) { return points(convert_to_string(pre + wchar_t(x) + suf)); });
      return true;
    }
    if (comp == "fromutf8") {
      std::string a = utf8(c["pre"]), b = utf8(c["suf"]);
      *res = sweep(c, [&](int x) {
        std::string t = a;
        put_utf8(&t, x);
        return cps(convert_from_string(t + b));
      });
      return true;
    }
  }
  return false;
}
