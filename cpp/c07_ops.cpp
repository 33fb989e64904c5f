#include "rt_ops.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/backends/cpu/ops/ArgsortOp.hpp"
#include "mllm/backends/cpu/ops/CloneOp.hpp"
#include "mllm/backends/cpu/ops/ConcatOp.hpp"
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
#include "mllm/backends/cpu/ops/CopyOp.hpp"
#include "mllm/backends/cpu/ops/GatherOp.hpp"
#include "mllm/backends/cpu/ops/IndexOp.hpp"
#include "mllm/backends/cpu/ops/MaskedScatterOp.hpp"
#include "mllm/backends/cpu/ops/PadOp.hpp"
#include "mllm/backends/cpu/ops/RepeatOp.hpp"
#include "mllm/backends/cpu/ops/Scatter2ShardsOp.hpp"
#include "mllm/backends/cpu/ops/SliceOp.hpp"
#include "mllm/backends/cpu/ops/SplitOp.hpp"
#include "mllm/backends/cpu/ops/StackOp.hpp"
#include "mllm/backends/cpu/ops/TopKOp.hpp"
#include "mllm/backends/cpu/ops/ViewOp.hpp"
using namespace mllm;
void rt_register(Backend& b) {
  reg<cpu::CPUArgsortOpFactory>(b), reg<cpu::CPUCloneOpFactory>(b), reg<cpu::CPUConcatOpFactory>(b), reg<cpu::CPUContiguousOpFactory>(b);
  reg<cpu::CPUCopyOpFactory>(b), reg<cpu::CPUGatherOpFactory>(b), reg<cpu::CPUIndexOpFactory>(b), reg<cpu::CPUMaskedScatterOpFactory>(b);
  reg<cpu::CPUPadOpFactory>(b), reg<cpu::CPURepeatOpFactory>(b), reg<cpu::CPUScatter2ShardsOpFactory>(b), reg<cpu::CPUSliceOpFactory>(b);
  reg<cpu::CPUSplitOpFactory>(b), reg<cpu::CPUStackOpFactory>(b), reg<cpu::CPUTopKOpFactory>(b), reg<cpu::CPUViewOpFactory>(b);
}
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>& in, const std::vector<double>& o) {
  auto& c = Context::instance();
  Reader r{o};
  auto t = in[0];
  if (n == "argsort") {
    int d = r.i();
    return {t.argsort(d, r.i())};
  }
  if (n == "topk") {
    int k = r.i(), d = r.i(), l = r.i(), s = r.i();
    auto p = t.topk(k, d, l, s);
    return {p[0], p[1]};
  }
  if (n == "clone") return {t.clone()};
  if (n == "contiguous") return {t.contiguous()};
  if (n == "copy2") {
    t.copy2(in[1]);
    return {};
  }
  if (n == "repeat") {
    int m = r.i();
    return {t.repeat(m, r.i())};
  }
  if (n == "unsqueeze") return {t.unsqueeze(r.i())};
  if (n == "squeeze") return {t.squeeze(r.i())};
  if (n == "flatten") return {t.flatten(r.i())};
  if (n == "view") return {t.view(r.v())};
  if (n == "slice") {
    SliceIndices s;
    for (size_t d = 0; d < t.rank(); ++d) {
      int a = r.i(), b = r.i(), st = r.i();
      s.push_back(st == 0 ? SliceIndicesPair(a) : SliceIndicesPair(a, b, st));
    }
    return {t[s]};
  }
  if (n == "index") {
    ComplexIndexingList l;
    size_t k = 1;
    int m = r.i();
    while (m-- > 0) {
      int kind = r.i();
      if (kind == 0) {
        int a = r.i(), b = r.i(), st = r.i();
        l.emplace_back(SliceIndicesPair(a, b, st));
      } else if (kind == 1) {
        l.emplace_back(r.v());
      } else {
        l.emplace_back(in[k++]);
      }
    }
    return {t[l]};
  }
  if (n == "concat") return c.buildOpAndSubmitTask(OpTypes::kConcat, aops::ConcatOpOptions{.dim = r.i()}, in);
  if (n == "stack") return c.buildOpAndSubmitTask(OpTypes::kStack, aops::StackOpOptions{.dim = r.i()}, in);
  if (n == "gather") return c.buildOpAndSubmitTask(OpTypes::kGather, aops::GatherOpOptions{.dim = r.i()}, in);
  if (n == "masked_scatter") return c.buildOpAndSubmitTask(OpTypes::kMaskedScatter, aops::MaskedScatterOpOptions{}, in);
  if (n == "scatter2shards") {
    return c.buildOpAndSubmitTask(OpTypes::kScatter2Shards, aops::Scatter2ShardsOpOptions{.dim = r.i()}, in);
  }
  if (n == "split") {
    aops::SplitOpOptions so;
    so.dim = r.i();
    so.split_size_or_sections = r.v();
    return c.buildOpAndSubmitTask(OpTypes::kSplit, so, in);
  }
  if (n == "pad") {
    aops::PadOpOptions po;
    po.mode = (aops::PadMode)r.i();
    po.value = r.f();
    po.pad = r.v();
    return c.buildOpAndSubmitTask(OpTypes::kPad, po, in);
  }
  throw std::runtime_error("no operator " + n);
}
