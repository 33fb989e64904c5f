// Numeric operators of the CPU backend, called through the context; operators with weights are created, named, loaded and run.
#include "rt_ops.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/backends/cpu/kernels/x86/fill.hpp"
#include "mllm/backends/cpu/kernels/x86/transpose.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/aops/AvgPool1dOp.hpp"
#include "mllm/core/aops/CastTypeOp.hpp"
#include "mllm/core/aops/CmpOp.hpp"
#include "mllm/core/aops/Conv1DOp.hpp"
#include "mllm/core/aops/Conv2DOp.hpp"
#include "mllm/core/aops/ElewiseOps.hpp"
#include "mllm/core/aops/EmbeddingOp.hpp"
#include "mllm/core/aops/FillOp.hpp"
#include "mllm/core/aops/GELUOp.hpp"
#include "mllm/core/aops/LinearOp.hpp"
#include "mllm/core/aops/MatMulOp.hpp"
#include "mllm/core/aops/PermuteOp.hpp"
#include "mllm/core/aops/RMSNormOp.hpp"
#include "mllm/core/aops/ReduceOps.hpp"
#include "mllm/core/aops/SiLUOp.hpp"
#include "mllm/core/aops/SigmoidOp.hpp"
#include "mllm/core/aops/SoftmaxOp.hpp"
#include "mllm/core/aops/TransposeOp.hpp"
using namespace mllm;
void rt_register(Backend&) {}
namespace {
template<class O> std::vector<Tensor> go(OpTypes t, const O& o, const std::vector<Tensor>& in) { return Context::instance().buildOpAndSubmitTask(t, o, in); }
// in = the inputs proper, then weight, then (bias) the bias
template<class O> std::vector<Tensor> weighted(OpTypes t, const O& o, std::vector<Tensor> in, bool bias, int uses = 1) {
  auto op = Context::instance().getBackend(kCPU)->createOp(t, o);
  op->setName("w");
  auto pf = ParameterFile::create();
  if (bias) pf->push("w.bias", in.back()), in.pop_back();
  pf->push("w.weight", in.back()), in.pop_back();
  op->load(pf);
  std::vector<Tensor> out;
  for (int i = 0; i < uses; ++i) {  // the same operator serves several calls
    out.clear();
    op->reshape(in, out);
    op->setup(in, out);
    op->forward(in, out);
  }
  return out;
}
}  // namespace
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>& in, const std::vector<double>& o) {
  Reader r{o};
  int threads = r.i();
  auto th = [&](auto x) {
    x.setThreads(threads);
    return x;
  };
  if (n == "add") return go(OpTypes::kAdd, th(aops::AddOpOptions{}), in);
  if (n == "sub") return go(OpTypes::kSub, th(aops::SubOpOptions{}), in);
  if (n == "mul") return go(OpTypes::kMul, th(aops::MulOpOptions{}), in);
  if (n == "div") return go(OpTypes::kDiv, th(aops::DivOpOptions{}), in);
  if (n == "neg") return go(OpTypes::kNeg, th(aops::NegOpOptions{}), in);
  if (n == "abs") return go(OpTypes::kAbs, th(aops::AbsOpOptions{}), in);
  if (n == "log") return go(OpTypes::kLog, th(aops::LogOpOptions{}), in);
  if (n == "exp") return go(OpTypes::kExp, th(aops::ExpOpOptions{}), in);
  if (n == "sin") return go(OpTypes::kSin, th(aops::SinOpOptions{}), in);
  if (n == "cos") return go(OpTypes::kCos, th(aops::CosOpOptions{}), in);
  if (n == "clip") {
    aops::ClipOpOptions c;
    c.min_val = r.f(), c.max_val = r.f();
    return go(OpTypes::kClip, th(c), in);
  }
  if (n == "equal") return go(OpTypes::kEqual, th(aops::EqualOpOptions{}), in);
  if (n == "sum" || n == "mean" || n == "rmax" || n == "rmin") {
    int d = r.i();
    bool k = r.i();
    if (n == "sum") return go(OpTypes::kReduceSum, th(aops::ReduceSumOpOptions{.dim = d, .keep_dim = k}), in);
    if (n == "mean") return go(OpTypes::kMean, th(aops::MeanOpOptions{.dim = d, .keep_dim = k}), in);
    if (n == "rmax") return go(OpTypes::kReduceMax, th(aops::ReduceMaxOpOptions{.dim = d, .keep_dim = k}), in);
    return go(OpTypes::kReduceMin, th(aops::ReduceMinOpOptions{.dim = d, .keep_dim = k}), in);
  }
  if (n == "softmax") return go(OpTypes::kSoftmax, th(aops::SoftmaxOpOptions{.axis = r.i()}), in);
  if (n == "silu") return go(OpTypes::kSiLU, th(aops::SiLUOpOptions{}), in);
  if (n == "sigmoid") return go(OpTypes::kSigmoid, th(aops::SigmoidOpOptions{}), in);
  if (n == "gelu") return go(OpTypes::kGELU, th(aops::GELUOpOptions{}), in);
  if (n == "transpose") {
    int a = r.i();
    return go(OpTypes::kTranspose, th(aops::TransposeOpOptions{.dim0 = a, .dim1 = r.i()}), in);
  }
  if (n == "permute") return go(OpTypes::kPermute, th(aops::PermuteOpOptions{.axis = r.v()}), in);
  if (n == "cast") return go(OpTypes::kCastType, th(aops::CastTypeOpOptions{.dtype = (DataTypes)r.i()}), in);
  if (n == "fill") {
    aops::FillOpOptions f;
    f.type = (aops::FillOpTypes)r.i(), f.value = r.f(), f.start = r.f(), f.end = r.f(), f.step = r.f(), f.seed = r.i();
    return go(OpTypes::kFill, th(f), in);
  }
  if (n == "matmul") {
    aops::MatMulOpOptions m;
    m.transpose_a = r.i(), m.transpose_b = r.i(), m.matmul_type = (aops::MatMulOpType)r.i();
    return go(OpTypes::kMatMul, th(m), in);
  }
  if (n == "linear") {
    aops::LinearOpOptions l{};
    l.in_channels = r.i(), l.out_channels = r.i(), l.bias = r.i(), l.impl_type = (aops::LinearImplTypes)r.i();
    return weighted(OpTypes::kLinear, th(l), in, l.bias, 2);
  }
  if (n == "rmsnorm") {
    aops::RMSNormOpOptions q{};
    q.epsilon = r.f(), q.add_unit_offset = r.i();
    return weighted(OpTypes::kRMSNorm, th(q), in, false);
  }
  if (n == "embedding") {
    aops::EmbeddingOpOptions e;
    e.vocab_size = r.i(), e.hidden_size = r.i();
    return weighted(OpTypes::kEmbedding, th(e), in, false, 2);
  }
  if (n == "conv1d") {
    aops::Conv1DOpOptions c{};
    c.in_channels = r.i(), c.out_channels = r.i(), c.kernel_size = r.i(), c.stride = r.i(), c.padding = r.i(), c.groups = r.i(), c.dilation = r.i(), c.bias = r.i();
    return weighted(OpTypes::kConv1D, th(c), in, c.bias);
  }
  if (n == "conv2d") {
    aops::Conv2DOpOptions c{};
    c.in_channels = r.i(), c.out_channels = r.i(), c.kernel_size = r.v(), c.stride = r.v(), c.padding = r.v(), c.dilation = r.v(), c.bias = r.i();
    return weighted(OpTypes::kConv2D, th(c), in, c.bias);
  }
  if (n == "avgpool") {
    aops::AvgPool1dOpOptions p{};
    p.kernel_size = r.i(), p.stride = r.i(), p.padding = r.i(), p.ceil_mode = r.i(), p.count_include_pad = r.i();
    return go(OpTypes::kAvgPool1d, th(p), in);
  }
  throw std::invalid_argument(n);
}
// The library's kernels themselves: the operators do not call all of them on x86.
extern "C" {
void k_fill(int kind, float* d, size_t n, float v, float a, float b, float step, uint64_t seed) {
  using namespace cpu::x86;
  kind == 0 ? fill_zeros(d, n, 1) : kind == 1 ? fill_ones(d, n, 1) : kind == 2 ? fill_specific_value(d, n, v, 1) : kind == 3 ? fill_arange(d, n, a, b, step, 1) : fill_random(d, n, a, b, seed, 1);
}
void k_transpose(int kind, int wide, const void* x, void* y, size_t a, size_t b, size_t c, size_t d) {
  using namespace cpu::x86;
  auto f = (const float*)x;
  auto i = (const mllm_int64_t*)x;
  if (kind == 0) wide ? transpose_hw_wh_int64(i, (mllm_int64_t*)y, a, b) : transpose_hw_wh_fp32(f, (float*)y, a, b);
  if (kind == 1) wide ? transpose_bshd_bhsd_int64(i, (mllm_int64_t*)y, a, b, c, d) : transpose_bshd_bhsd_fp32(f, (float*)y, a, b, c, d);
  if (kind == 2) wide ? transpose_last_dims_int64(i, (mllm_int64_t*)y, a, b, c) : transpose_last_dims_fp32(f, (float*)y, a, b, c);
}
void k_permute(const float* x, float* y, const int* shape, const int* perm, int n) { cpu::x86::permute_fp32(x, y, shape, perm, n); }
}
