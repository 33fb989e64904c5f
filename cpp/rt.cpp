// A CPU runtime of its own around the operators that build without further
// libraries: an allocator that hands out blocks of the exact size (so that a
// sanitizer sees any access outside a tensor), a backend that knows the
// compiled operators, the repository's own dispatcher, context and tensors.
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mllm/core/Tensor.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/backends/base/Backend.hpp"
#include "mllm/backends/cpu/CPUDispatcher.hpp"
#include "mllm/utils/Log.hpp"
#include "rt_ops.hpp"
#ifdef RT_FULL
#include "mllm/backends/cpu/CPUBackend.hpp"
#include "mllm/backends/cpu/CPUAllocator.hpp"
#endif
using namespace mllm;
namespace {
struct Exact final : Allocator {
  bool ctrlByMemManager() override { return false; }
  bool alloc(Storage* s) override {
    void* p = nullptr;
    if (posix_memalign(&p, 64, s->size_ ? s->size_ : 1)) abort();
    s->ptr_ = p;
    memset(s->ptr_, 0xA5, s->size_);
    return true;
  }
  bool alloc(const Storage::ptr_t& s) override { return alloc(s.get()); }
  void free(Storage* s) override {
    ::free(s->ptr_);
    s->ptr_ = nullptr;
  }
  void free(const Storage::ptr_t& s) override { free(s.get()); }
  bool generalAlloc(void** p, size_t cap, size_t al) override { return !posix_memalign(p, al < 16 ? 16 : al, cap); }
  void generalFree(void* p) override { ::free(p); }
  size_t allocSize(Storage* s) override { return s->size_; }
  size_t allocSize(const Storage::ptr_t& s) override { return s->size_; }
  size_t alignSize() const override { return 16; }
};
#ifndef RT_FULL
struct TestBackend final : Backend {
  explicit TestBackend(const Allocator::ptr_t& a) : Backend(kCPU, a) { rt_register(*this); }
};
#endif
std::map<int64_t, Tensor> tensors;
int64_t next_id = 1;
std::string error;
int64_t put(const Tensor& t) {
  tensors.emplace(next_id, t);
  return next_id++;
}
}  // namespace
Tensor& rt_get(int64_t h) { return tensors.at(h); }
int64_t rt_put(const Tensor& t) { return put(t); }

#ifdef RT_FULL
// The repository's backend registers every operator; its allocator is never asked, the memory manager is given the exact one.
namespace mllm::cpu {
bool CPUAllocator::alloc(Storage* s) { return Exact().alloc(s); }
bool CPUAllocator::alloc(const Storage::ptr_t& s) { return Exact().alloc(s); }
void CPUAllocator::free(Storage* s) { Exact().free(s); }
void CPUAllocator::free(const Storage::ptr_t& s) { Exact().free(s); }
bool CPUAllocator::generalAlloc(void** p, size_t cap, size_t al) { return Exact().generalAlloc(p, cap, al); }
void CPUAllocator::generalFree(void* p) { ::free(p); }
size_t CPUAllocator::allocSize(Storage* s) { return s->size_; }
size_t CPUAllocator::allocSize(const Storage::ptr_t& s) { return s->size_; }
size_t CPUAllocator::alignSize() const { return 16; }
std::shared_ptr<CPUAllocator> createCPUAllocator() { return std::make_shared<CPUAllocator>(); }
}  // namespace mllm::cpu
#endif

extern "C" {
void rt_init() {
  Logger::level() = LogLevel::kError;
  auto& ctx = Context::instance();
  auto a = std::make_shared<Exact>();
#ifdef RT_FULL
  auto b = std::make_shared<cpu::CPUBackend>();
  rt_register(*b);
  ctx.registerBackend(b);
#else
  ctx.registerBackend(std::make_shared<TestBackend>(a));
#endif
  ctx.memoryManager()->registerAllocator(kCPU, a, MemoryManagerOptions{.really_large_tensor_threshold = 0, .using_buddy_mem_pool = false});
  ctx.dispatcherManager()->registerDispatcher(cpu::createCPUDispatcher(ctx.dispatcherManager()->getExecutor(), {}));
}
const char* rt_error() { return error.c_str(); }
void rt_clear() { tensors.clear(); }
int64_t t_new(int dtype, int n, const int32_t* shape) {
  return put(Tensor::empty(std::vector<int32_t>(shape, shape + n), (DataTypes)dtype, kCPU).alloc());
}
int64_t t_view(int64_t h, int off, int n, const int32_t* shape, const int32_t* stride) {
  return put(Tensor(TensorViewImpl::create(off, std::vector<int32_t>(shape, shape + n), std::vector<int32_t>(stride, stride + n),
                                           tensors.at(h).impl()->storage())));
}
void t_free(int64_t h) { tensors.erase(h); }
// [rank, dtype, offset, contiguous, shape..., stride...]
int t_info(int64_t h, int32_t* o) {
  auto& t = tensors.at(h);
  auto s = t.shape();
  auto d = t.stride();
  int k = 0;
  o[k++] = s.size(), o[k++] = t.dtype(), o[k++] = t.impl()->storageOffset(), o[k++] = t.isContiguous();
  for (auto x : s) o[k++] = x;
  for (auto x : d) o[k++] = x;
  return k;
}
void* t_ptr(int64_t h) { return tensors.at(h).ptr<char>(); }
void* t_storage(int64_t h) { return tensors.at(h).impl()->storage()->ptr_; }
int64_t t_storage_bytes(int64_t h) { return tensors.at(h).impl()->storage()->size_; }
int64_t t_numel(int64_t h) { return tensors.at(h).numel(); }
int64_t t_rank_n_contig(int64_t h, int n) { return tensors.at(h).isContiguousN(n); }
void* t_at(int64_t h, int n, const int32_t* idx) { return tensors.at(h).offsettedPtr<char>(std::vector<int32_t>(idx, idx + n)); }
// Number of outputs, or -1 when the operator threw.
int rt_op(const char* name, int nin, const int64_t* in, int nopt, const double* opt, int64_t* out) {
  try {
    std::vector<Tensor> ts;
    for (int i = 0; i < nin; ++i) ts.push_back(tensors.at(in[i]));
    auto r = rt_run(name, ts, std::vector<double>(opt, opt + nopt));
    for (size_t i = 0; i < r.size(); ++i) out[i] = put(r[i]);
    return (int)r.size();
  } catch (const std::exception& e) {
    error = e.what();
    return -1;
  }
}
}
