#include <cstring>
#include <map>
#include "rt_ops.hpp"
#include "mllm/preprocessor/tokenizers/AutoTokenizer.hpp"
#include "mllm/preprocessor/tokenizers/BPE.hpp"
#include "mllm/preprocessor/tokenizers/BPEUTF8.hpp"
#include "mllm/preprocessor/tokenizers/Unicode.hpp"
#include "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.h"
#include "mllm/models/qwen3/tokenization_qwen3.hpp"
#include "mllm/models/qwen_npu/tokenization_qwen.hpp"
#include "mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp"
#include "mllm/models/qwen_ascend/tokenization_qwen_ascend.hpp"
#include "mllm/models/qwen2vl/tokenization_qwen2vl.hpp"
#include "mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp"
#include "mllm/models/minicpm4/tokenization_minicpm4.hpp"
#include "mllm/models/smollm3_3B/tokenization_smollm3.hpp"
#include "mllm/models/deepseek_ocr/tokenization_deepseek_ocr.hpp"
#include "mllm/models/llama/tokenization_tiny_llama.hpp"
using namespace mllm;
void rt_register(Backend&) {}
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>&, const std::vector<double>&) { throw std::invalid_argument(n); }
using preprocessor::utf8string2WideString;
using preprocessor::wideString2Utf8String;
namespace {
using Ids = std::vector<int64_t>;
Ids ids_of(Tensor t) {
  auto p = t.ptr<int64_t>();
  return Ids(p, p + t.numel());
}
struct Tok {
  virtual ~Tok() = default;
  virtual Ids encode(const std::string& s) = 0;
  virtual std::string piece(int64_t id) { throw std::invalid_argument("piece"); }
  virtual std::string decode(const Ids&) { throw std::invalid_argument("decode"); }
  virtual Ids padded(const std::string&, int, int, int, int64_t*) { throw std::invalid_argument("padded"); }
  virtual Ids message(const std::string&) { throw std::invalid_argument("message"); }
};
template<class T> struct Wide : Tok {
  T t;
  template<class... A> explicit Wide(A&&... a) : t(std::forward<A>(a)...) {}
  Ids encode(const std::string& s) override { return ids_of(t.convert2Ids(t.tokenize(s))); }
  std::string piece(int64_t id) override { return wideString2Utf8String(t.detokenize(id)); }
};
template<class T, class M> struct WideM : Wide<T> {
  using Wide<T>::Wide;
  Ids message(const std::string& s) override {
    M m;
    m.prompt = s;
    return ids_of(this->t.convertMessage(m).at("sequence"));
  }
};
struct Ascend : WideM<models::qwen_ascend::QwenAscendTokenizer, models::qwen_ascend::QwenAscendMessage> {
  using WideM::WideM;
  std::string decode(const Ids& v) override { return t.decode(v); }
};
struct Npu : WideM<models::qwen_npu::QwenTokenizer, models::qwen_npu::QwenMessage> {
  using WideM::WideM;
  Ids padded(const std::string& s, int chunk, int len, int vocab, int64_t* n) override {
    auto r = chunk ? t.tokenizePaddingByChunk(s, chunk, vocab) : t.tokenizeWithPadding(s, len, vocab);
    *n = r.first;
    return ids_of(r.second);
  }
};
struct Tiny : Wide<models::llama::TinyLlamaTokenizer> {
  using Wide::Wide;
  Ids message(const std::string& s) override {
    return ids_of(t.convertMessage({{"system", "be brief"}, {"user", s}}).at("sequence"));
  }
};
template<class T> struct Utf8 : Tok {
  T t;
  explicit Utf8(const std::string& f) : t(f) {}
  Ids encode(const std::string& s) override { return t.encode(s); }
  std::string decode(const Ids& v) override { return t.decode(v); }
};
struct Mini4 : Utf8<models::minicpm4::MiniCPM4Tokenizer> {
  using Utf8::Utf8;
  Ids message(const std::string& s) override {
    models::minicpm4::MiniCPM4Message m;
    m.prompt = s;
    return ids_of(t.convertMessage(m).at("sequence"));
  }
};
// its tokenizer class holds the image and audio front ends; only the pre-tokenization is its own
struct MiniO : Tok {
  preprocessor::BPE bpe;
  std::unordered_map<std::wint_t, wchar_t> map;
  explicit MiniO(const std::string& f) {
    bpe.initFromSentencePieceJson(f);
    preprocessor::makeBytes2UnicodeMap(map);
  }
  Ids encode(const std::string& s) override {
    std::vector<std::wstring> words;
    models::minicpmo::miniCPMORegex(s, words);
    Ids ids;
    for (auto& w : words) {
      std::wstring m;
      for (unsigned char c : wideString2Utf8String(w)) m.push_back(map.at(c));
      for (auto& p : bpe._bpe(m)) ids.push_back(bpe._lookup_vocab(p));
    }
    return ids;
  }
};
std::map<int, std::unique_ptr<Tok>> toks;
std::string out;
const char* give(std::string s) {
  out = std::move(s);
  return out.data();
}
template<class F> int guarded(F f) {
  try {
    f();
    return 0;
  } catch (const std::exception& e) {
    out = e.what();
    return -1;
  }
}
}  // namespace
extern "C" {
int64_t out_size() { return out.size(); }
const char* out_data() { return out.data(); }
int tok_open(int id, const char* kind, const char* path, int flag) {
  return guarded([&] {
    std::string k = kind, p = path;
    toks.erase(id);
    auto& t = toks[id];
    if (k == "qwen3") t = std::make_unique<WideM<models::qwen3::Qwen3Tokenizer, models::qwen3::Qwen3Message>>(p);
    else if (k == "qwen3_moe") t = std::make_unique<WideM<models::qwen3_moe::Qwen3Tokenizer, models::qwen3_moe::Qwen3Message>>(p);
    else if (k == "qwen_ascend") t = std::make_unique<Ascend>(p);
    else if (k == "qwen2vl") t = std::make_unique<Wide<models::qwen2vl::Qwen2VLTokenizer>>(p);
    else if (k == "minicpmo") t = std::make_unique<MiniO>(p);
    else if (k == "qwen_npu") t = std::make_unique<Npu>(p, p + ".merges");
    else if (k == "minicpm4") t = std::make_unique<Mini4>(p);
    else if (k == "smollm3") t = std::make_unique<Utf8<models::smollm3::SmolLM3Tokenizer>>(p);
    else if (k == "deepseek_ocr") t = std::make_unique<Utf8<models::deepseek_ocr::DpskOcrTokenizer>>(p);
    else if (k == "tiny_llama") t = std::make_unique<Tiny>(p, flag);
    else throw std::invalid_argument(k);
  });
}
int64_t tok_encode(int id, const char* s, int64_t n, int message, int64_t* ids, int64_t cap) {
  int64_t r = -1;
  guarded([&] {
    auto v = message ? toks.at(id)->message(std::string(s, n)) : toks.at(id)->encode(std::string(s, n));
    if ((int64_t)v.size() <= cap) std::copy(v.begin(), v.end(), ids);
    r = v.size();
  });
  return r;
}
int64_t tok_padded(int id, const char* s, int64_t n, int chunk, int len, int vocab, int64_t* real, int64_t* ids, int64_t cap) {
  int64_t r = -1;
  guarded([&] {
    auto v = toks.at(id)->padded(std::string(s, n), chunk, len, vocab, real);
    if ((int64_t)v.size() <= cap) std::copy(v.begin(), v.end(), ids);
    r = v.size();
  });
  return r;
}
int tok_decode(int id, const int64_t* ids, int64_t n) { return guarded([&] { give(toks.at(id)->decode(Ids(ids, ids + n))); }); }
int tok_piece(int id, int64_t i) { return guarded([&] { give(toks.at(id)->piece(i)); }); }
void tok_clear() { toks.clear(); }
// joined by a byte that occurs in no text
static const char SEP = '\xFF';
int trie_split(int wide, int n, const char** words, const int64_t* lens, const char* s, int64_t sl) {
  return guarded([&] {
    std::string r, text(s, sl);
    preprocessor::Trie w;
    preprocessor::TrieUTF8 u;
    std::vector<std::string> ws;
    for (int i = 0; i < n; ++i) ws.emplace_back(words[i], lens[i]);
    if (wide) {
      for (auto& x : ws) w.add(utf8string2WideString(x));
      for (auto& p : w.split(utf8string2WideString(text))) r += (w.isSpecialToken(p) ? "S" : "T") + wideString2Utf8String(p) + SEP;
    } else {
      u.update(ws);
      for (auto& p : u.split(text)) r += (u.isSpecialToken(p) ? "S" : "T") + p + SEP;
    }
    give(r);
  });
}
int regex_split(const char* s, int64_t n, int k, const char** exprs) {
  return guarded([&] {
    std::string r;
    for (auto& p : unicode_regex_split(std::string(s, n), std::vector<std::string>(exprs, exprs + k))) r += p + SEP;
    give(r);
  });
}
int cpt_flags(uint32_t c) {
  auto f = unicode_cpt_flags(c);
  return f.is_number | f.is_letter << 1 | f.is_separator << 2 | f.is_accent_mark << 3 | f.is_punctuation << 4 | f.is_symbol << 5 | f.is_control << 6 | f.is_whitespace << 7;
}
uint32_t cpt_lower(uint32_t c) { return unicode_tolower(c); }
int utf8_trip(int how, const char* s, int64_t n) {
  return guarded([&] {
    std::string x(s, n), r;
    if (how == 0) r = wideString2Utf8String(utf8string2WideString(x));
    if (how == 1)
      for (auto c : unicode_cpts_from_utf8(x)) r += unicode_cpt_to_utf8(c);
    if (how == 2)
      for (unsigned char c : x) r += unicode_byte_to_utf8(c);
    if (how == 3)
      for (unsigned char c : x) r += (char)unicode_utf8_to_byte(unicode_byte_to_utf8(c));
    if (how == 4) {
      std::unordered_map<std::wint_t, wchar_t> m;
      preprocessor::makeBytes2UnicodeMap(m);
      for (unsigned char c : x) r += wideString2Utf8String(std::wstring{m.at(c)});
    }
    give(r);
  });
}
}
