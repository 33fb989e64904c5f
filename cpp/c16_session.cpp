// A Qwen3 service session behind a C interface: write a model folder, open it, ask it.
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <bit>
#include <functional>
#include <thread>
#include "rt_ops.hpp"
#include "mllm/mllm.hpp"
#include "mllm/models/ARGeneration.hpp"
#include "mllm/nn/Nn.hpp"
#include "mllm/models/qwen3/tokenization_qwen3.hpp"
#include "mllm/engine/service/Session.hpp"
// The model and the cache of a session, to look at the logits themselves.
#define private public
#include "mllm/models/qwen3/modeling_qwen3_service.hpp"
#undef private
using namespace mllm;
using namespace mllm::models;
void rt_register(Backend&) {}
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>& in, const std::vector<double>& o) { throw std::invalid_argument(n); }
namespace {
std::unique_ptr<qwen3::Qwen3Session> session;
std::unique_ptr<qwen3::Qwen3Tokenizer> tokenizer;
ParameterFile::ptr_t params;
std::string out, err;
// The session reports its cache hits on standard output.
struct Quiet {
  int old;
  Quiet() {
    fflush(stdout);
    old = dup(1);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  ~Quiet() {
    fflush(stdout);
    dup2(old, 1);
    close(old);
  }
};
template<class F> int guard(F f) {
  try {
    Quiet q;
    f();
    return 0;
  } catch (const std::exception& e) { err = e.what(); }
  return -1;
}
// Slots of the cache's file system in use, less the ones its tree can find (0 where the session keeps them in another way).
template<class S> int64_t leak(S& s) {
  int64_t used = 0, held = 0;
  if constexpr (requires {
                  static_cast<prefix_cache::_HiCPUAllocator*>(s.cache_->allocator_.allocators_[kCPU].get())->zen_fs_.blob_.begin()->second.free_lanes_bits_map;
                  s.cache_->tree_.root_->children.begin()->second->value.k_cache_addresses;
                }) {
    for (auto& [_, b] : static_cast<prefix_cache::_HiCPUAllocator*>(s.cache_->allocator_.allocators_[kCPU].get())->zen_fs_.blob_)
      for (auto w : b.free_lanes_bits_map) used += 64 - std::popcount(w);
    std::function<void(prefix_cache::RadixTreeNode*)> walk = [&](prefix_cache::RadixTreeNode* n) {
      for (auto& v : n->value.k_cache_addresses) held += v.size();
      for (auto& v : n->value.v_cache_addresses) held += v.size();
      for (auto& [_, c] : n->children) walk(c);
    };
    walk(&*s.cache_->tree_.root_);
  }
  return used - held;
}
}  // namespace
extern "C" {
const char* s_error() { return err.c_str(); }
const char* s_out() { return out.c_str(); }
void s_free() {
  session.reset();
  tokenizer.reset();
  params.reset();
}
void s_param(const char* name, int nd, const int32_t* shape, const float* x) {
  if (!params) params = ParameterFile::create();
  auto t = Tensor::empty(std::vector<int32_t>(shape, shape + nd), kFloat32, kCPU).alloc();
  std::copy(x, x + t.numel(), t.ptr<float>());
  t.setName(name);
  t.setMemType(kParamsNormal);
  params->push(name, t);
}
int s_save(const char* file) {
  return guard([&] {
    save(file, params, ModelFileVersion::kV2);
    params.reset();
  });
}
int s_tokenizer(const char* file) {
  return guard([&] { tokenizer = std::make_unique<qwen3::Qwen3Tokenizer>(file); });
}
int s_new(const char* dir) {
  Context::instance().setCpuOpThreads(1);
  return guard([&] {
    session = std::make_unique<qwen3::Qwen3Session>();
    session->fromPreTrain(dir);
  });
}
int s_template(const char* messages, int prompt, int think) {
  return guard([&] { out = qwen3::Qwen3Session().applyChatTemplate(nlohmann::json::parse(messages), {}, prompt, think); });
}
int s_ids(const char* text, int64_t* ids, int cap) {
  int n = 0;
  if (guard([&] {
        auto v = tokenizer->convert2Ids(tokenizer->tokenize(nlohmann::json::parse(text).get<std::string>())).toVector<int64_t>();
        n = v.size();
        std::copy(v.begin(), v.begin() + std::min(n, cap), ids);
      }))
    return -1;
  return n;
}
int s_piece(int64_t id) {
  return guard([&] { out = nlohmann::json(preprocessor::wideString2Utf8String(tokenizer->detokenize(id))).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace); });
}
// The answer as a JSON list of [text, finished].
int s_ask(const char* request) {
  return guard([&] {
    auto a = nlohmann::json::array();
    session->streamGenerate(nlohmann::json::parse(request), [&](const nlohmann::json& t, bool f) { a.push_back(nlohmann::json::array({t, f})); });
    out = a.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
  });
}
int64_t s_leak() { return leak(*session); }
// Several requests at once, one thread each: the list of their answers.
int s_ask_all(const char* requests) {
  return guard([&] {
    auto rs = nlohmann::json::parse(requests);
    std::vector<nlohmann::json> as(rs.size(), nlohmann::json::array());
    std::vector<std::thread> ts;
    for (size_t i = 0; i < rs.size(); ++i)
      ts.emplace_back([&, i] {
        session->streamGenerate(rs[i], [&, i](const nlohmann::json& t, bool f) { as[i].push_back(nlohmann::json::array({t, f})); });
      });
    for (auto& t : ts) t.join();
    out = nlohmann::json(as).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
  });
}
}
