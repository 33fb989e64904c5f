// The fused attention operators behind a C interface: every one is built from its options and run by the dispatcher.
#include "rt_ops.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/core/aops/FlashAttention2Op.hpp"
#include "mllm/core/aops/FlashAttn2WithSinkAndSwaOp.hpp"
#include "mllm/core/aops/PagedAttnOp.hpp"
#include "mllm/core/aops/RadixAttnOp.hpp"
#include "mllm/core/aops/RadixAttnDiffDimOp.hpp"
#include "mllm/core/aops/RadixAttnWithSinkAndSwaDiffDimOp.hpp"
using namespace mllm;
void rt_register(Backend&) {}
namespace {
// Inputs 1 and 2 name the address of each token's line: the rows of the next two inputs, by the list of rows in the options.
std::vector<char*> lines(const Tensor& rows, const std::vector<int32_t>& at) {
  std::vector<char*> r;
  auto t = rows;
  for (auto i : at) r.push_back((char*)t.offsettedPtr<float>({i, 0}));
  return r;
}
}  // namespace
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>& in, const std::vector<double>& o) {
  Reader r{o};
  auto& c = Context::instance();
  c.setCpuOpThreads(r.i());
  if (n == "flash") {
    int B = in[0].shape()[0], H = r.i(), KV = r.i(), D = r.i();
    return c.buildOpAndSubmitTask(OpTypes::kFlashAttention2, aops::FlashAttention2OpOptions{.B = B, .q_head = H, .kv_head = KV, .D = D, .hp_exp = false, .causal_mask = true}, in);
  }
  if (n == "flash_sink") {
    aops::FlashAttention2SwaSinkOptions p;
    p.B = in[0].shape()[0];
    p.q_head = r.i();
    p.kv_head = r.i();
    p.D_QK = r.i();
    p.D_V = r.i();
    p.sliding_window = r.i();
    p.cur_seq_len = r.i();
    p.s_aux_enable = true;
    return c.buildOpAndSubmitTask(OpTypes::kFlashAttention2WithSinkAndSwa, p, in);
  }
  if (n == "paged") {
    aops::PagedAttnOpOptions p;
    p.head_repeat_times = r.i();
    p.need_attn_weights = r.i();
    return c.buildOpAndSubmitTask(OpTypes::kPagedAttn, p, in);
  }
  // The radix family: Q, rows of K, rows of V and possibly the sinks.
  int H = r.i(), KV = r.i(), DQ = r.i(), DV = r.i();
  auto at = r.v(), av = r.v();
  auto k = lines(in[1], at), v = lines(in[2], av);
  auto K = Tensor::refVectorData(k, {(int)k.size()}, kInt64, kCPU), V = Tensor::refVectorData(v, {(int)v.size()}, kInt64, kCPU);
  if (n == "radix") return c.buildOpAndSubmitTask(OpTypes::kRadixAttn, aops::RadixAttnOpOptions{.H_Q = H, .H_KV = KV}, {in[0], K, V});
  if (n == "relax") {
    aops::RadixAttnRelaxOpOptions p;
    p.B = in[0].shape()[0];
    p.q_head = H;
    p.kv_head = KV;
    p.D_QK = DQ;
    p.D_V = DV;
    return c.buildOpAndSubmitTask(OpTypes::kRadixAttnRelax, p, {in[0], K, V});
  }
  if (n == "radix_sink") {
    aops::RadixAttnSwaSinkOptions p;
    p.B = in[0].shape()[0];
    p.q_head = H;
    p.kv_head = KV;
    p.D_QK = DQ;
    p.D_V = DV;
    p.sliding_window = r.i();
    p.cur_seq_len = r.i();
    p.s_aux_enable = true;
    p.pattern = r.i() ? aops::RadixAttnSwaSinkPattern::kPrefill : aops::RadixAttnSwaSinkPattern::kDecode;
    return c.buildOpAndSubmitTask(OpTypes::kRadixAttnWithSinkAndSwaDiffDim, p, {in[0], K, V, in[3]});
  }
  throw std::invalid_argument(n);
}
