// Whole models of mllm/models behind a C interface: config file, parameters by name, prefill and decode.
#include "rt_ops.hpp"
#include "mllm/mllm.hpp"
#include "mllm/models/llama/modeling_llama.hpp"
#include "mllm/models/qwen3/modeling_qwen3.hpp"
#include "mllm/models/smollm3_3B/modeling_smollm3.hpp"
#include "mllm/models/minicpm4/modeling_minicpm4.hpp"
#include "mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp"
namespace mllm::models::qwen3_fa2 {
using mllm::models::qwen3::Qwen3Config;
}
#define qwen3 qwen3_fa2
#include "mllm/models/qwen3/modeling_qwen3_fa2.hpp"
#undef qwen3
using namespace mllm;
using namespace mllm::models;
void rt_register(Backend&) {}
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>& in, const std::vector<double>& o) { throw std::invalid_argument(n); }
namespace {
struct Any {
  virtual ~Any() = default;
  virtual void load(const ParameterFile::ptr_t& p) = 0;
  virtual ARGeneration& gen() = 0;
};
template<class C, class M> struct Holder final : Any {
  C cfg;
  std::unique_ptr<M> m;
  template<class... A> explicit Holder(const std::string& f, A&&... a) : cfg(f) { m = std::make_unique<M>(std::forward<A>(a)..., cfg); }
  void load(const ParameterFile::ptr_t& p) override { m->load(p); }
  ARGeneration& gen() override { return *m; }
};
struct LlamaHolder final : Any {
  llama::LLaMAConfig cfg;
  std::unique_ptr<llama::LlamaForCausalLM> m;
  LlamaHolder(const std::string& f, bool mask) : cfg(f) { m = std::make_unique<llama::LlamaForCausalLM>("", cfg, mask); }
  void load(const ParameterFile::ptr_t& p) override { m->load(p); }
  ARGeneration& gen() override { return *m; }
};
std::unique_ptr<Any> model;
ParameterFile::ptr_t params;
ARGenerationOutputPast past;
std::string err;
}  // namespace
extern "C" {
const char* m_error() { return err.c_str(); }
void m_free() {
  past.clear();
  model.reset();
  params.reset();
}
int m_new(const char* kind, const char* cfg, int variant) {
  m_free();
  Context::instance().setCpuOpThreads(1);
  params = ParameterFile::create();
  std::string k = kind;
  try {
    if (k == "llama") model = std::make_unique<LlamaHolder>(cfg, variant);
    else if (k == "qwen3") model = std::make_unique<Holder<qwen3::Qwen3Config, qwen3::Qwen3ForCausalLM>>(cfg);
    else if (k == "qwen3_fa2") model = std::make_unique<Holder<qwen3::Qwen3Config, qwen3_fa2::Qwen3ForCausalLM>>(cfg);
    else if (k == "smollm3") model = std::make_unique<Holder<smollm3::Smollm3Config, smollm3::Smollm3ForCausalLM>>(cfg);
    else if (k == "minicpm4") model = std::make_unique<Holder<minicpm4::MiniCPM4Config, minicpm4::MiniCPM4ForCausalLM>>(cfg);
    else if (k == "qwen3_moe") model = std::make_unique<Holder<qwen3_moe::Qwen3MoeConfig, qwen3_moe::Qwen3MoeForCausalLM>>(cfg);
    else throw std::invalid_argument(k);
  } catch (const std::exception& e) {
    err = e.what();
    return -1;
  }
  return 0;
}
void m_param(const char* name, int nd, const int32_t* shape, const float* x) {
  auto t = Tensor::empty(std::vector<int32_t>(shape, shape + nd), kFloat32, kCPU).alloc();
  std::copy(x, x + t.numel(), t.ptr<float>());
  t.setName(name);
  t.setMemType(kParamsNormal);
  params->push(name, t);
}
int m_load() {
  try {
    model->load(params);
  } catch (const std::exception& e) {
    err = e.what();
    return -1;
  }
  return 0;
}
// One forward call on n further tokens; the number of logits, copied up to cap.
int m_forward(int n, const int64_t* ids, float* out, int cap) {
  try {
    auto seq = Tensor::empty({1, n}, kInt64, kCPU).alloc();
    std::copy(ids, ids + n, seq.ptr<int64_t>());
    auto in = past;
    in["sequence"] = seq;
    past = model->gen().forward(in, {});
    auto t = past.at("sequence");
    if (!t) throw std::runtime_error("the model returned no logits");
    if (t.shape().size() != 3 || t.shape()[0] != 1 || t.shape()[1] != 1) throw std::runtime_error("logits are not [1, 1, vocabulary]");
    t = t.contiguous();
    int v = t.shape()[2];
    std::copy(t.ptr<float>(), t.ptr<float>() + std::min(v, cap), out);
    return v;
  } catch (const std::exception& e) {
    err = e.what();
    return -1;
  }
}
// tokens of a whole generation: 0 generate, 1 stream, 2 chat
int m_generate(int mode, int n, const int64_t* ids, int max_len, int64_t* out, int cap) {
  try {
    auto seq = Tensor::empty({1, n}, kInt64, kCPU).alloc();
    std::copy(ids, ids + n, seq.ptr<int64_t>());
    ARGenerationOutputPast in{{"sequence", seq}};
    ARGenerationArgs a;
    if (max_len >= 0) a["max_length"] = AnyValue(max_len);
    int k = 0;
    auto emit = [&](int64_t t) {
      if (k < cap) out[k] = t;
      ++k;
    };
    auto& g = model->gen();
    if (mode == 0) {
      auto r = g.generate(in, a).at("generated_sequence");
      for (int i = 0; i < r.shape()[0]; ++i) emit(r.ptr<mllm_int64_t>()[i]);
    } else if (mode == 1) {
      g.streamGenerate(in, a, emit);
    } else {
      for (auto& s : g.chat(in, a)) emit(s.cur_token_id);
    }
    return k;
  } catch (const std::exception& e) {
    err = e.what();
    return -1;
  }
}
}
