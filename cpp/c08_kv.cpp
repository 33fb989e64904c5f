#include <cstring>
#include <map>
#include "rt_ops.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/core/aops/FillOp.hpp"
#include "mllm/backends/cpu/ops/ConcatOp.hpp"
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
#include "mllm/backends/cpu/ops/CopyOp.hpp"
#include "mllm/backends/cpu/ops/KVCacheOp.hpp"
#include "mllm/backends/cpu/ops/RepeatOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/nn/lmcache/DynamicCache.hpp"
#include "mllm/nn/lmcache/StaticCache.hpp"
using namespace mllm;
// Stands in for the fill operator, whose kernels need the highway library.
struct ZeroFill final : aops::FillOp {
  explicit ZeroFill(const aops::FillOpOptions& o) : aops::FillOp(o) {}
  void forward(const std::vector<Tensor>&, std::vector<Tensor>& out) override { memset(out[0].ptr<char>(), 0, out[0].bytes()); }
};
struct ZeroFillFactory : TypedOpFactory<OpTypes::kFill, aops::FillOpOptions> {
  std::shared_ptr<BaseOp> createOpImpl(const aops::FillOpOptions& o) override { return std::make_shared<ZeroFill>(o); }
};
namespace {
std::map<int, std::unique_ptr<nn::StaticCache>> st;
std::map<int, std::unique_ptr<nn::SubStaticCache>> sub;
std::map<int, std::unique_ptr<nn::DynamicCache>> dyn;
std::map<int, std::shared_ptr<cpu::CPUKVCacheOp>> ops;
}  // namespace
void rt_register(Backend& b) {
  reg<ZeroFillFactory>(b), reg<cpu::CPUConcatOpFactory>(b), reg<cpu::CPUContiguousOpFactory>(b), reg<cpu::CPUCopyOpFactory>(b);
  reg<cpu::CPUKVCacheOpFactory>(b), reg<cpu::CPURepeatOpFactory>(b), reg<cpu::CPUSliceOpFactory>(b);
}
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>& in, const std::vector<double>& o) {
  Reader r{o};
  auto two = [](std::array<Tensor, 2> p) { return std::vector<Tensor>{p[0], p[1]}; };
  int id = r.i();
  if (n == "static_new") {
    int mx = r.i(), l = r.i(), q = r.i(), kv = r.i(), d = r.i(), kt = r.i(), vt = r.i(), fa = r.i();
    st[id] = std::make_unique<nn::StaticCache>(mx, l, q, kv, d, (DataTypes)kt, (DataTypes)vt, kCPU, fa);
    return {};
  }
  if (n == "static_update") return two(st.at(id)->updateKVCache(r.i(), in[0], in[1]));
  if (n == "static_get") return two(st.at(id)->getKVCache(r.i()));
  if (n == "static_pre") {
    int l = r.i();
    return two(st.at(id)->preGetKVWriteLocation(l, r.i()));
  }
  if (n == "sub_new") {
    int of = r.i(), a = r.i();
    sub[id] = std::make_unique<nn::SubStaticCache>(*st.at(of), a, r.i());
    return {};
  }
  if (n == "sub_update") return two(sub.at(id)->updateKVCache(r.i(), in[0], in[1]));
  if (n == "dyn_new") {
    int l = r.i(), q = r.i(), kv = r.i(), d = r.i();
    dyn[id] = std::make_unique<nn::DynamicCache>(l, q, kv, d, r.i());
    return {};
  }
  if (n == "dyn_update") return two(dyn.at(id)->updateKVCache(r.i(), in[0], in[1]));
  if (n == "op_new") {
    aops::KVCacheOpOptions k;
    k.layer_idx = r.i(), k.q_head = r.i(), k.kv_head = r.i(), k.head_dim = r.i(), k.use_fa2 = false;
    ops[id] = std::static_pointer_cast<cpu::CPUKVCacheOp>(Context::instance().getBackend(kCPU)->createOp(OpTypes::kKVCache, k));
    int shared = r.i();
    if (shared >= 0) ops[id]->setStaticCache(st.at(shared).get());
    return {};
  }
  if (n == "op_update") {
    std::vector<Tensor> out;
    ops.at(id)->reshape(in, out);
    ops.at(id)->setup(in, out);
    ops.at(id)->forward(in, out);
    return out;
  }
  throw std::invalid_argument(n);
}
extern "C" {
int kv_count(int kind, int id, int layer) {
  switch (kind) {
    case 0: return st.at(id)->getCurrentSeqCnt(layer);
    case 1: return sub.at(id)->getCurrentSeqCnt(layer);
    case 2: return dyn.at(id)->getCurrentSeqCnt();
    default: return ops.at(id)->getCurrentSeqCnt();
  }
}
void kv_set(int kind, int id, int seq) { kind == 0 ? st.at(id)->setCurrentSeqCnt(seq) : ops.at(id)->setCurrentSeqCnt(seq); }
void kv_wipe(int kind, int id) {
  if (kind == 0) st.at(id)->clearCache();
  else if (kind == 1) sub.at(id)->clearCache();
  else ops.at(id)->clearCache();
}
int kv_layers(int kind, int id) { return kind == 0 ? st.at(id)->getLayerNums() : sub.at(id)->getLayerNums(); }
void kv_buffers(int id, int layer, int64_t* out) {
  out[0] = rt_put(st.at(id)->getKCacheBuffer(layer));
  out[1] = rt_put(st.at(id)->getVCacheBuffer(layer));
}
void kv_reset() { ops.clear(), sub.clear(), st.clear(), dyn.clear(); }
}
