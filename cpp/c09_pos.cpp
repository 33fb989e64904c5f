#include <cstring>
#include "rt_ops.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/backends/cpu/ops/CausalMaskOp.hpp"
#include "mllm/backends/cpu/ops/RoPEOp.hpp"
#include "mllm/models/llama/modeling_llama.hpp"
#include "mllm/models/minicpm4/modeling_minicpm4.hpp"
#include "mllm/models/qwen3/modeling_qwen3.hpp"
#include "mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp"
#include "mllm/models/smollm3_3B/modeling_smollm3.hpp"
#include "mllm/models/deepseek_ocr/modeling_deepseek_ocr.hpp"
#include "mllm/models/qwen_npu/modeling_qwen_npu_cpu.hpp"
#include "mllm/models/qwen2vl/modeling_qwen2vl.hpp"
#include "mllm/models/qwen2_5vl/modeling_qwen2_5vl.hpp"
#include "mllm/models/minicpm_o2_6/modeling_resampler.hpp"
#include "mllm/models/qwen3/modeling_qwen3_probing_service.hpp"
// Headers that declare the same names in the same namespace get one of their own.
namespace mllm::models::qwen3_fa2 { using namespace qwen3; }
namespace mllm::models::qwen3_aot { using namespace qwen3; }
namespace mllm::models::qwen3_svc { using namespace qwen3; }
namespace mllm::models::qwen2vl_o { using namespace qwen2vl; }
namespace mllm::models::qwen2vl_t { using namespace qwen2vl; }
namespace mllm::models::qwen2_5vl_t { using namespace qwen2_5vl; }
#define qwen3 qwen3_fa2
#include "mllm/models/qwen3/modeling_qwen3_fa2.hpp"
#undef qwen3
#define qwen3 qwen3_aot
#include "mllm/models/qwen3/modeling_qwen3_qnn_aot.hpp"
#undef qwen3
#define qwen3 qwen3_svc
#include "mllm/models/qwen3/modeling_qwen3_service.hpp"
#undef qwen3
#define qwen2vl qwen2vl_o
#include "mllm/models/minicpm_o2_6/modeling_qwen2vl_for_minicpmo.hpp"
#undef qwen2vl
#define qwen2vl qwen2vl_t
#include "mllm/models/qwen2vl/modeling_qwen2vl_traceable.hpp"
#undef qwen2vl
#define qwen2_5vl qwen2_5vl_t
#include "mllm/models/qwen2_5vl/modeling_qwen2_5vl_traceable.hpp"
#undef qwen2_5vl
using namespace mllm;
void rt_register(Backend& b) { reg<cpu::CPUCausalMaskOpFactory>(b), reg<cpu::CPURoPEOpFactory>(b); }
namespace {
std::vector<Tensor> two(std::pair<Tensor, Tensor> p) { return {p.first, p.second}; }
// The functions of the vision-language models that place text and picture; they read only their arguments.
template<class M> M& shell() {
  alignas(64) static char raw[sizeof(M)];
  return reinterpret_cast<M&>(raw);
}
#define VL(NS, M, C)                                                                                                       \
  if (ns == #NS) {                                                                                                         \
    using namespace models::NS;                                                                                            \
    if (n == "vl_ids") return {NS::makeVisualRotaryPosEmbIds(a, r.i())};                                                   \
    if (n == "vl_visual") {                                                                                                \
      int dims = r.i();                                                                                                    \
      float theta = r.f();                                                                                                 \
      int len = r.i();                                                                                                     \
      auto f = NS::makeVisualRoPEInvFreq(dims, theta);                                                                     \
      auto full = NS::makeVisualRotaryPosEmbFull(f, len);                                                                  \
      auto ids = NS::makeVisualRotaryPosEmbIds(a, r.i());                                                                  \
      auto e = NS::makeVisualRotaryPosEmb(full, ids, a);                                                                   \
      return two(NS::makeVisualRotarySinCos(e));                                                                           \
    }                                                                                                                      \
    if (n == "vl_mrope") {                                                                                                 \
      int dim = r.i();                                                                                                     \
      float theta = r.f();                                                                                                 \
      auto f = NS::makeMultimodalRoPEInvFreq(dim, theta);                                                                  \
      return two(NS::makeMultimodalPositionEmbedding(a, f, 32768, dim, r.v()));                                            \
    }                                                                                                                      \
    C cfg;                                                                                                                 \
    if (n == "vl_place") {                                                                                                 \
      cfg.vision_token_id = r.i(), cfg.visual_spatial_merge_size = r.i();                                                  \
      Tensor img = Tensor::empty({1}).alloc(), none = Tensor::nil(), grid = in[1];                                         \
      return {shell<M>().getPositionIds(img, grid, a, none, cfg)};                                                         \
    }                                                                                                                      \
    if (n == "vl_next") {                                                                                                  \
      Tensor none = Tensor::nil();                                                                                         \
      return {shell<M>().getPositionIds(none, none, none, a, cfg)};                                                        \
    }                                                                                                                      \
  }
#define LM(KEY, NS)                                                                                                        \
  if (ns == #KEY) {                                                                                                        \
    int dim = r.i();                                                                                                       \
    float theta = r.f();                                                                                                   \
    auto f = NS::makeRoPEInvFreq(dim, theta);                                                                              \
    return two(NS::makeRotaryPosEmbedding(a, f, r.f()));                                                                   \
  }
}  // namespace
std::vector<Tensor> rt_run(const std::string& name, const std::vector<Tensor>& in, const std::vector<double>& o) {
  auto& c = Context::instance();
  Reader r{o};
  auto a = in.empty() ? Tensor::nil() : in[0];
  auto cut = name.find(':');
  std::string n = name.substr(0, cut), ns = cut == std::string::npos ? "" : name.substr(cut + 1);
  if (n == "mask") {
    aops::CausalMaskOpOptions m;
    m.sliding_window = r.i(), m.window_size = r.i();
    return c.buildOpAndSubmitTask(OpTypes::kCausalMask, m, in);
  }
  if (n == "rope") {
    aops::RoPEOpOptions m;
    m.input_type = (aops::RoPEOpOptionsInputType)r.i(), m.partial_dim = r.i();
    m.setInplace(r.i());
    return c.buildOpAndSubmitTask(OpTypes::kRoPE, m, in);
  }
  if (n == "lm") {
    LM(llama, models::llama) LM(qwen3, models::qwen3) LM(qwen3_fa2, models::qwen3_fa2) LM(qwen3_aot, models::qwen3_aot) LM(qwen3_svc, models::qwen3_svc)
    LM(qwen3_probing, models::qwen3_probing) LM(qwen3_moe, models::qwen3_moe) LM(smollm3, models::smollm3) LM(deepseek_ocr, models::deepseek_ocr)
    LM(qwen_npu, models::qwen_npu::utils)
    if (ns == "minicpm4") {
      models::minicpm4::MiniCPM4Config cfg;
      int dim = r.i();
      float theta = r.f();
      int len = r.i();
      cfg.max_position_embeddings = r.i(), cfg.original_max_position_embeddings = r.i();
      cfg.rope_scaling_type = r.i() ? "longrope" : "";
      cfg.short_factor = r.vf(), cfg.long_factor = r.vf();
      auto f = models::minicpm4::makeRoPEInvFreqWithLongRoPE(dim, theta, cfg, len);
      return two(models::minicpm4::makeRotaryPosEmbedding(a, f, models::minicpm4::computeLongRoPEScalingFactor(cfg)));
    }
  }
  if (n == "window") {
    int w = r.i(), m = r.i(), p = r.i();
    auto k = ns == "qwen2_5vl" ? models::qwen2_5vl::makeWindowIndex(a, w, m, p) : models::qwen2_5vl_t::makeWindowIndex(a, w, m, p);
    std::vector<Tensor> out;
    for (auto& v : {k.first, k.second}) {
      auto t = Tensor::empty({(int)v.size()}, kInt32).alloc();
      memcpy(t.ptr<int>(), v.data(), v.size() * 4);
      out.push_back(t);
    }
    return out;
  }
  if (n == "sincos2d") {
    int d = r.i();
    return {models::minicpmo::get2DSinCosPosEmbed(d, r.v())};
  }
  namespace qwen2vl = models::qwen2vl;
  namespace qwen2vl_o = models::qwen2vl_o;
  namespace qwen2vl_t = models::qwen2vl_t;
  namespace qwen2_5vl = models::qwen2_5vl;
  namespace qwen2_5vl_t = models::qwen2_5vl_t;
  VL(qwen2vl, qwen2vl::Qwen2VLForCausalLM, Qwen2VLConfig)
  VL(qwen2vl_o, qwen2vl_o::Qwen2VLForCausalLM, Qwen2VLConfig)
  VL(qwen2vl_t, qwen2vl_t::Qwen2VLForCausalLM, Qwen2VLConfig)
  VL(qwen2_5vl, qwen2_5vl::Qwen2_5VLForCausalLM, Qwen2_5VLConfig)
  VL(qwen2_5vl_t, qwen2_5vl_t::Qwen2_5VLForCausalLM, Qwen2_5VLConfig)
  throw std::invalid_argument(name);
}
