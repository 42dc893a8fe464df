// Conformance driver: performs the calls of sessions on the real tokenizer and
// records what each returned.  Only the library's public API is used.
//
//   driver REQUESTS RESULTS START
//
// REQUESTS: one session per line, a JSON array of calls.  Tokenizers live for
// one session.  RESULTS: one line {"s":session,"c":call,"out":...} per call.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <clocale>
#include <csignal>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>
#include <string>
#include <thread>
#include <vector>

#include <unicode/normalizer2.h>
#include <unicode/regex.h>
#include <unicode/uchar.h>
#include <unicode/unistr.h>

#include "simdjson.h"
#include "tokenizers/added_vocabulary.h"
#include "tokenizers/common.h"
#include "tokenizers/decoder.h"
#include "tokenizers/model.h"
#include "tokenizers/normalizer.h"
#include "tokenizers/post_processor.h"
#include "tokenizers/pre_tokenizer.h"
#include "tokenizers/tokenizer.h"
#include "tokenizers/utils.h"

using J = nlohmann::json;

static int g_timeout = 20;

static std::wstring wide(const J& a) {
  std::wstring r;
  for (const auto& x : a) r.push_back(static_cast<wchar_t>(x.get<long>()));
  return r;
}
static J cps(const std::wstring& w) {
  J a = J::array();
  for (wchar_t c : w) a.push_back(static_cast<int>(c));
  return a;
}
static void put_utf8(std::string* s, unsigned c) {
  if (c < 0x80) {
    s->push_back(c);
  } else if (c < 0x800) {
    s->push_back(0xC0 | (c >> 6));
    s->push_back(0x80 | (c & 63));
  } else if (c < 0x10000) {
    s->push_back(0xE0 | (c >> 12));
    s->push_back(0x80 | ((c >> 6) & 63));
    s->push_back(0x80 | (c & 63));
  } else {
    s->push_back(0xF0 | (c >> 18));
    s->push_back(0x80 | ((c >> 12) & 63));
    s->push_back(0x80 | ((c >> 6) & 63));
    s->push_back(0x80 | (c & 63));
  }
}
static std::string utf8(const J& a) {
  std::string s;
  for (const auto& x : a) put_utf8(&s, x.get<unsigned>());
  return s;
}
// lenient: a byte that is not part of well-formed UTF-8 is reported as -1 - byte
static J points(const std::string& s) {
  J a = J::array();
  size_t i = 0, n = s.size();
  auto cont = [&](size_t k) { return i + k < n && (static_cast<unsigned char>(s[i + k]) & 0xC0) == 0x80; };
  while (i < n) {
    unsigned char b = s[i];
    long c = -1;
    int len = 1;
    if (b < 0x80) {
      c = b;
    } else if (b >= 0xC2 && b < 0xE0 && cont(1)) {
      c = (b & 31) << 6 | (s[i + 1] & 63);
      len = 2;
    } else if (b >= 0xE0 && b < 0xF0 && cont(1) && cont(2)) {
      c = (b & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63);
      len = 3;
      if (c < 0x800 || (c >= 0xD800 && c < 0xE000)) c = -1;
    } else if (b >= 0xF0 && b < 0xF5 && cont(1) && cont(2) && cont(3)) {
      c = (b & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63);
      len = 4;
      if (c < 0x10000 || c > 0x10FFFF) c = -1;
    }
    if (c < 0) {
      a.push_back(-1 - static_cast<int>(b));
      i++;
    } else {
      a.push_back(c);
      i += len;
    }
  }
  return a;
}
static std::string bytes(const J& a) {
  std::string s;
  for (const auto& x : a) s.push_back(static_cast<char>(x.get<int>()));
  return s;
}
static J bytes_of(const std::string& s) {
  J a = J::array();
  for (unsigned char c : s) a.push_back(static_cast<int>(c));
  return a;
}
static J ranges(const std::vector<std::pair<int, int>>& v) {
  J a = J::array();
  for (const auto& r : v) a.push_back(J::array({r.first, r.second}));
  return a;
}
static J enc_json(const Encoding& e) {
  J words = J::array(), toks = J::array(), over = J::array();
  for (const auto& w : e.words) words.push_back(w.has_value() ? *w : -1);
  for (const auto& t : e.tokens) toks.push_back(points(t));
  for (const auto& o : e.overflowing) over.push_back(enc_json(o));
  return J{{"ids", e.ids},   {"types", e.type_ids},          {"toks", toks},         {"words", words}, {"offs", ranges(e.offsets)},
           {"spec", e.special_tokens_mask}, {"att", e.attention_mask}, {"over", over}};
}
static Encoding json_enc(const J& j) {
  Encoding e;
  e.ids = j["ids"].get<std::vector<int>>();
  e.type_ids = j["types"].get<std::vector<int>>();
  for (const auto& t : j["toks"]) e.tokens.push_back(utf8(t));
  for (const auto& w : j["words"]) e.words.push_back(w.get<int>() < 0 ? std::optional<int>() : std::optional<int>(w.get<int>()));
  for (const auto& o : j["offs"]) e.offsets.push_back({o[0].get<int>(), o[1].get<int>()});
  e.special_tokens_mask = j["spec"].get<std::vector<int>>();
  e.attention_mask = j["att"].get<std::vector<int>>();
  for (const auto& o : j["over"]) e.overflowing.push_back(json_enc(o));
  return e;
}
static NormalizedString json_norm(const J& j) {
  std::vector<std::pair<int, int>> o;
  for (const auto& r : j["o"]) o.push_back({r[0].get<int>(), r[1].get<int>()});
  return NormalizedString(wide(j["c"]), o);
}
static std::vector<AddedToken> json_added(const J& j) {
  std::vector<AddedToken> v;
  for (const auto& t : j) {
    v.push_back(AddedToken(t.value("id", 0), t.contains("bytes") ? bytes(t["bytes"]) : utf8(t["content"]), t["sw"].get<bool>(), t["ls"].get<bool>(), t["rs"].get<bool>(),
                           t["nz"].get<bool>(), t["sp"].get<bool>()));
  }
  return v;
}

// components are built by the library's own factories from a JSON object
struct Doc {
  simdjson::ondemand::parser parser;
  simdjson::padded_string text;
  simdjson::ondemand::document doc;
  explicit Doc(const std::string& s) : text(s) { doc = parser.iterate(text); }
  simdjson::ondemand::object object() { return doc.get_object(); }
};

struct Session {
  std::vector<std::unique_ptr<Tokenizer>> toks;
  Tokenizer& at(const J& c) { return *toks.at(c["k"].get<int>() - 1); }
};

static J shape(const J& a, int c) {
  if (a.is_array()) {
    J r = J::array();
    for (const auto& x : a) r.push_back(shape(x, c));
    return r;
  }
  if (a.is_number_integer() && a.get<int>() == c) return -1;
  return a;
}
// applies f to every code point of the ranges and run-length encodes the results
static J sweep(const J& call, const std::function<J(int)>& f) {
  J out = J::array();
  for (const auto& range : call["ranges"]) {
    J last;
    int lo = -1, to = range[1].get<int>();
    for (int c = range[0].get<int>(); c <= to; c++) {
      J s = shape(f(c), c);
      if (lo >= 0 && s == last) continue;
      if (lo >= 0) out.push_back(J::array({lo, c - 1, last}));
      lo = c;
      last = s;
    }
    if (lo >= 0) out.push_back(J::array({lo, to, last}));
  }
  return out;
}

static PreTokenizedString make_pt(const J& call) {
  PreTokenizedString pt(json_norm(call["n"]));
  pt.splits.clear();
  for (const auto& s : call["s"]) {
    int a = s[0].get<int>(), b = s[1].get<int>();
    Split sp(convert_to_string(pt.normalized.normalized.substr(a, b - a)), {a, b});
    if (s[2].get<bool>()) sp.tokens.push_back(Token(7, "", {0, b - a}));
    pt.splits.push_back(sp);
  }
  return pt;
}
static J pt_json(const PreTokenizedString& pt) {
  J s = J::array();
  for (const auto& x : pt.splits) {
    s.push_back(J{{"x", points(x.normalized)}, {"i", x.offsets.first}, {"j", x.offsets.second}, {"t", !x.tokens.empty()}});
  }
  return J{{"c", cps(pt.normalized.normalized)}, {"o", ranges(pt.normalized.offsets)}, {"s", s}};
}

static J run_call(Session* ses, const J& c);

// ICU makes its singletons once, under locks of its own that ThreadSanitizer cannot see
// (the library is not instrumented): make them before there are threads.
static void warm_icu() {
  UErrorCode st = U_ZERO_ERROR;
  const icu::UnicodeString text = icu::UnicodeString::fromUTF8("aB\u0301 \u1161'S 1\u4e2d\U0001d400\u212b_");
  for (const icu::Normalizer2* n : {icu::Normalizer2::getNFCInstance(st), icu::Normalizer2::getNFDInstance(st), icu::Normalizer2::getNFKCInstance(st),
                                    icu::Normalizer2::getNFKDInstance(st), icu::Normalizer2::getNFKCCasefoldInstance(st)}) {
    icu::UnicodeString out = n->normalize(text, st), more;
    n->getDecomposition(0x212b, more);
    n->getRawDecomposition(0x212b, more);
    for (int i = 0; i < text.length(); i++) {
      n->hasBoundaryBefore(text[i]);
      n->hasBoundaryAfter(text[i]);
      n->isInert(text[i]);
      n->composePair(text[i], 0x301);
      n->getCombiningClass(text[i]);
    }
    n->isNormalized(text, st);
    n->quickCheck(text, st);
    n->spanQuickCheckYes(text, st);
  }
  for (const char* p : {"(?i:'s|'t)|\\p{L}+|\\p{N}+|[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)|\\s+", "\\w+\\b.\\d|\\R|\\X|^$", "(?i)[a-z\u00e9]+\\h*"}) {
    std::unique_ptr<icu::RegexPattern> pattern(icu::RegexPattern::compile(icu::UnicodeString::fromUTF8(p), 0, st));
    if (U_FAILURE(st)) break;
    std::unique_ptr<icu::RegexMatcher> m(pattern->matcher(text, st));
    while (m && m->find(st) && U_SUCCESS(st)) {
    }
  }
  icu::UnicodeString low = text;
  low.toLower();
  low.toUpper();
  low.foldCase();
  low.trim();
  for (int c : {0x41, 0x301, 0x4e2d, 0x1d400}) {
    u_charType(c);
    u_tolower(c);
    u_isUWhiteSpace(c);
    u_hasBinaryProperty(c, UCHAR_WHITE_SPACE);
    u_getIntPropertyValue(c, UCHAR_GENERAL_CATEGORY);
    u_getCombiningClass(c);
  }
}

// the calls of several threads, started together; results per thread
static J run_parallel(Session* ses, const J& c) {
  const J& lists = c["threads"];
  int rounds = c.value("rounds", 1);
  std::vector<std::vector<J>> out(lists.size());
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < lists.size(); t++) {
    ts.emplace_back([&, t]() {
      ready++;
      while (ready.load() < static_cast<int>(lists.size())) {
      }
      for (int r = 0; r < rounds; r++) {
        for (const auto& call : lists[t]) out[t].push_back(run_call(ses, call));
      }
    });
  }
  for (auto& t : ts) t.join();
  J res = J::array();
  for (const auto& o : out) res.push_back(o);
  return res;
}

#ifdef DRIVER_PARTS
#include "parts.h"
#endif

static J call_value(Session* ses, const J& c) {
  std::string op = c["op"];
#ifdef DRIVER_PARTS
  J part;
  if (part_value(ses, c, &part)) return part;
#endif
  if (op == "new") {
    std::string path = c.value("path", std::string()), json = c.value("json", std::string());
    if (c.contains("bytes")) json = bytes(c["bytes"]);
    if (c.contains("dir")) {  // hand the configuration over as a directory
      char tmpl[] = "/tmp/verif-tok-XXXXXX";
      path = mkdtemp(tmpl);
      std::ofstream(path + "/tokenizer.json") << json;
      std::unique_ptr<Tokenizer> t;
      std::exception_ptr err;
      try {
        t = std::make_unique<Tokenizer>(path, c.value("both", false) ? json : "");
      } catch (...) {
        err = std::current_exception();
      }
      unlink((path + "/tokenizer.json").c_str());
      rmdir(path.c_str());
      if (err) std::rethrow_exception(err);
      ses->toks.push_back(std::move(t));
    } else {
      ses->toks.push_back(std::make_unique<Tokenizer>(path, json));
    }
    return static_cast<int>(ses->toks.size());
  }
  if (op == "add") {
    auto v = json_added(c["toks"]);
    return c.value("viaspecial", false) ? ses->at(c).add_special_tokens(v) : ses->at(c).add_tokens(v);
  }
  if (op == "enc") {
    if (c.contains("deflt")) return enc_json(ses->at(c).encode(wide(c["text"])));
    return enc_json(ses->at(c).encode(wide(c["text"]), c["special"].get<bool>()));
  }
  if (op == "dec") {
    if (c.contains("deflt")) return bytes_of(ses->at(c).decode(c["ids"].get<std::vector<int>>()));
    return bytes_of(ses->at(c).decode(c["ids"].get<std::vector<int>>(), c["skip"].get<bool>()));
  }
  if (op == "round") {  // decode(encode(text))
    Encoding e = ses->at(c).encode(wide(c["text"]), false);
    return bytes_of(ses->at(c).decode(e.ids, false));
  }
  if (op == "norm") {
    Doc d(c["json"]);
    auto n = with_normalizer(d.object());
    NormalizedString in = json_norm(c["in"]);
    NormalizedString r = n->normalize(in);
    return J{{"c", cps(r.normalized)}, {"o", ranges(r.offsets)}};
  }
  if (op == "pre") {
    Doc d(c["json"]);
    auto p = with_pre_tokenizer(d.object());
    return pt_json(p->pre_tokenize(make_pt(c)));
  }
  if (op == "model") {
    Doc d(c["json"]);
    auto m = with_model(d.object());
    J out = J::array();
    if (c.value("together", false)) {  // one call, one split per word
      std::wstring all;
      for (const auto& w : c["words"]) all += wide(w);
      PreTokenizedString pt{NormalizedString(all)};
      pt.splits.clear();
      int at = 0;
      for (const auto& w : c["words"]) {
        int n = w.size();
        pt.splits.push_back(Split(utf8(w), {at, at + n}));
        at += n;
      }
      pt = m->tokenize(pt);
      for (const auto& s : pt.splits) {
        J ts = J::array();
        for (const auto& t : s.tokens) ts.push_back(J::array({t.id, points(t.value), t.offsets.first, t.offsets.second}));
        out.push_back(ts);
      }
      return out;
    }
    for (const auto& w : c["words"]) {
      PreTokenizedString pt{NormalizedString(wide(w))};
      pt = m->tokenize(pt);
      J ts = J::array();
      for (const auto& t : pt.splits.at(0).tokens) ts.push_back(J::array({t.id, points(t.value), t.offsets.first, t.offsets.second}));
      out.push_back(ts);
    }
    return out;
  }
  if (op == "chain" || op == "join") {
    Doc d(c["json"]);
    auto dec = with_decoder(d.object());
    std::vector<std::string> in;
    for (const auto& t : c["toks"]) in.push_back(bytes(t));
    J out = J::array();
    std::string all;
    for (const auto& t : dec->decode_chain(in)) {
      out.push_back(bytes_of(t));
      all += t;
    }
    return op == "join" ? bytes_of(all) : out;
  }
  if (op == "trunc") {
    Doc d(c["json"]);
    auto t = with_truncation(d.object());
    return enc_json(t->truncate_encoding(json_enc(c["e"])));
  }
  if (op == "pad") {
    Doc d(c["json"]);
    auto t = with_padding(d.object());
    return enc_json(t->pad_encoding(json_enc(c["e"])));
  }
  if (op == "post") {
    Doc d(c["json"]);
    auto t = with_post_processor(d.object());
    return enc_json(t->process(json_enc(c["e"]), c["special"].get<bool>()));
  }
  if (op == "sweep") {
    std::string comp = c["comp"];
    std::wstring pre = wide(c["pre"]), suf = wide(c["suf"]);
    if (comp == "norm") {
      Doc d(c["json"]);
      auto n = with_normalizer(d.object());
      return sweep(c, [&](int x) { return cps(n->normalize(NormalizedString(pre + wchar_t(x) + suf)).normalized); });
    }
    if (comp == "align") {
      Doc d(c["json"]);
      auto n = with_normalizer(d.object());
      return sweep(c, [&](int x) {
        NormalizedString r = n->normalize(NormalizedString(pre + wchar_t(x) + suf));
        J a = J::array();
        for (size_t i = 0; i < r.normalized.size(); i++) {
          a.push_back(static_cast<int>(r.normalized[i]));
          a.push_back(-2 - r.offsets.at(i).first);
          a.push_back(-2 - r.offsets.at(i).second);
        }
        return a;
      });
    }
    if (comp == "pre") {
      Doc d(c["json"]);
      auto p = with_pre_tokenizer(d.object());
      return sweep(c, [&](int x) {
        PreTokenizedString r = p->pre_tokenize(PreTokenizedString{NormalizedString(pre + wchar_t(x) + suf)});
        J a = J::array();
        for (const auto& s : r.splits) a.push_back(points(s.normalized));
        return a;
      });
    }
    if (comp == "cut") {  // only the lengths of the pieces
      Doc d(c["json"]);
      auto p = with_pre_tokenizer(d.object());
      return sweep(c, [&](int x) {
        PreTokenizedString r = p->pre_tokenize(PreTokenizedString{NormalizedString(pre + wchar_t(x) + suf)});
        J a = J::array();
        for (const auto& s : r.splits) {
          // the original range of the piece
          int lo = 1 << 30, hi = 0;
          for (int i = s.offsets.first; i < s.offsets.second; i++) {
            lo = std::min(lo, r.normalized.offsets.at(i).first);
            hi = std::max(hi, r.normalized.offsets.at(i).second);
          }
          a.push_back(-2 - lo);
          a.push_back(-2 - hi);
        }
        return a;
      });
    }
    if (comp == "enc") {
      Tokenizer& t = ses->at(c);
      return sweep(c, [&](int x) {
        Encoding e = t.encode(pre + wchar_t(x) + suf, false);
        J a = J::array();
        for (int i : e.ids) a.push_back(-2 - i);
        for (const auto& o : e.offsets) {
          a.push_back(-2 - o.first);
          a.push_back(-2 - o.second);
        }
        return a;
      });
    }
  }
  throw std::logic_error("unknown op " + op);
}

static J run_call(Session* ses, const J& c) {
  try {
    return J{{"ok", true}, {"v", call_value(ses, c)}};
  } catch (const std::logic_error& e) {
    if (std::string(e.what()).rfind("unknown op", 0) == 0) {
      fprintf(stderr, "%s\n", e.what());
      _exit(3);
    }
    return J{{"ok", false}, {"t", dynamic_cast<const std::invalid_argument*>(&e) ? "invalid_argument" : "std"}};
  } catch (const nlohmann::json::exception& e) {
    fprintf(stderr, "driver: %s in %s\n", e.what(), c.dump().substr(0, 300).c_str());
    _exit(3);
  } catch (const std::exception& e) {
    return J{{"ok", false}, {"t", "std"}};
  } catch (...) {
    return J{{"crash", "non-standard exception"}};
  }
}

int main(int argc, char** argv) {
  if (argc < 4) return 3;
  if (getenv("DRIVER_LOCALE") != nullptr) setlocale(LC_ALL, getenv("DRIVER_LOCALE"));
  if (getenv("DRIVER_TIMEOUT") != nullptr) g_timeout = atoi(getenv("DRIVER_TIMEOUT"));
  warm_icu();
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "a");
  long start = atol(argv[3]);
  std::string line;
  for (long s = 0; std::getline(in, line); s++) {
    if (s < start) continue;
    J calls = J::parse(line);
    Session ses;
    int k = 0;
    for (const auto& c : calls) {
      alarm(c.value("timeout", g_timeout));
      J r = c["op"] == "par" ? J{{"ok", true}, {"v", run_parallel(&ses, c)}} : run_call(&ses, c);
      alarm(0);
      std::string text = J{{"s", s}, {"c", k++}, {"out", r}}.dump(-1, ' ', true, J::error_handler_t::replace);
      fprintf(out, "%s\n", text.c_str());
      fflush(out);
    }
  }
  fclose(out);
  return 0;
}
