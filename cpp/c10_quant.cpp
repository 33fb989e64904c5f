// Block quantisation: the type traits table the matmul uses, the int8 row helpers, and Linear/Embedding with quantised weights.
#include "rt_ops.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/aops/EmbeddingOp.hpp"
#include "mllm/core/aops/LinearOp.hpp"
#include "mllm/backends/cpu/ops/LinearOp.hpp"
#include "mllm/backends/cpu/ops/EmbeddingOp.hpp"
#include "mllm/backends/cpu/ops/ViewOp.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/vec_dot_type.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/vec_dot.hpp"
#include "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.hpp"
using namespace mllm;
void rt_register(Backend& b) { reg<cpu::CPULinearOpFactory>(b), reg<cpu::CPUEmbeddingOpFactory>(b), reg<cpu::CPUViewOpFactory>(b); }
namespace {
auto traits(int t) { return cpu::ggml::getRuntimeTypeTraits((DataTypes)t); }
template<class O> std::vector<Tensor> weighted(OpTypes t, const O& o, std::vector<Tensor> in, bool bias) {
  auto op = Context::instance().getBackend(kCPU)->createOp(t, o);
  op->setName("w");
  auto pf = ParameterFile::create();
  if (bias) pf->push("w.bias", in.back()), in.pop_back();
  pf->push("w.weight", in.back()), in.pop_back();
  op->load(pf);
  std::vector<Tensor> out;
  op->reshape(in, out);
  op->setup(in, out);
  op->forward(in, out);
  return out;
}
}  // namespace
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>& in, const std::vector<double>& o) {
  Reader r{o};
  int threads = r.i();
  auto th = [&](auto x) {
    x.setThreads(threads);
    return x;
  };
  if (n == "linear") {
    aops::LinearOpOptions l{};
    l.in_channels = r.i(), l.out_channels = r.i(), l.bias = r.i(), l.impl_type = (aops::LinearImplTypes)r.i();
    return weighted(OpTypes::kLinear, th(l), in, l.bias);
  }
  if (n == "embedding") {
    aops::EmbeddingOpOptions e;
    e.vocab_size = r.i(), e.hidden_size = r.i();
    return weighted(OpTypes::kEmbedding, th(e), in, false);
  }
  throw std::invalid_argument(n);
}
extern "C" {
int q_has(int t) { auto x = traits(t); return !!x.to_float | !!x.from_float << 1 | !!x.vec_dot << 2 | !!x.add_row_to << 3; }
int q_dot_type(int t) { return traits(t).vec_dot_type; }
int q_size(int t) { return bytesOfType((DataTypes)t); }
int q_lanes(int t) { return lanesOfType((DataTypes)t); }
void q_to(int t, const void* x, float* y, int k) { traits(t).to_float(x, y, k); }
void q_from(int t, const float* x, void* y, int k) { traits(t).from_float(x, y, k); }
void q_add(int t, int n, const void* x, float* y, float a) { traits(t).add_row_to(n, x, y, a); }
void q_dot(int t, int n, float* s, const void* x, const void* y) {
  if (t == kGGUF_Q8_0) return cpu::ggml::vec_dot_q8_0_q8_0(n, s, x, y);
  traits(t).vec_dot(n, s, x, y);
}
void q_i8(const float* x, void* y, int k, float s) { cpu::quantize_row_i8(x, y, k, s); }
void q_un8(const void* x, float* y, int k, float s) { cpu::dequantize_row_i8(x, y, k, s); }
void q_un8h(const void* x, void* y, int k, float s) { cpu::dequantize_row_i8_to_fp16(x, y, k, s); }
void q_rt8(const float* x, float* y, int k, float s) { cpu::quantize_round_dequantize_row_i8(x, y, k, s); }
void q_dot8(int n, float* s, const void* x, const void* y, float a, float b) { cpu::ggml::vec_dot_i8_i8(n, s, x, y, a, b); }
}
