#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <random>
#include <thread>
#include <vector>
#include <mutex>
#include <atomic>
#include "mllm/core/Tensor.hpp"
#include "mllm/engine/MemoryManager.hpp"
#include "mllm/engine/BuddyMemPool.hpp"
using namespace mllm;
// what the tensor header needs at link time
struct Os final : Allocator {
  std::mutex m;
  std::vector<std::pair<char*, size_t>> segs, direct;
  size_t align;
  explicit Os(size_t a) : align(a) {}
  bool ctrlByMemManager() override { return true; }
  bool alloc(Storage* s) override {
    s->ptr_ = aligned_alloc(64, (s->size_ + 63) / 64 * 64);
    std::lock_guard l(m);
    direct.push_back({(char*)s->ptr_, s->size_});
    return true;
  }
  bool alloc(const Storage::ptr_t& s) override { return alloc(s.get()); }
  void free(Storage* s) override {
    std::lock_guard l(m);
    for (size_t i = 0; i < direct.size(); ++i)
      if (direct[i].first == s->ptr_) {
        direct.erase(direct.begin() + i);
        ::free(s->ptr_);
        return;
      }
    abort();
  }
  void free(const Storage::ptr_t& s) override { free(s.get()); }
  bool generalAlloc(void** p, size_t cap, size_t al) override {
    if (posix_memalign(p, al, cap)) return false;
    std::lock_guard l(m);
    segs.push_back({(char*)*p, cap});
    return true;
  }
  void generalFree(void* p) override {
    std::lock_guard l(m);
    for (size_t i = 0; i < segs.size(); ++i)
      if (segs[i].first == p) {
        segs.erase(segs.begin() + i);
        ::free(p);
        return;
      }
    abort();
  }
  size_t allocSize(Storage* s) override { return (s->size_ + align - 1) / align * align; }
  size_t allocSize(const Storage::ptr_t& s) override { return allocSize(s.get()); }
  size_t alignSize() const override { return align; }
};
struct H {
  std::shared_ptr<Os> os;
  std::shared_ptr<MemoryManager> mm;
  BuddyMemPool::ptr_t pool;
};
struct S2 : Storage {};
extern "C" {
// pool alone when thr==0, else the memory manager with that threshold
void* mem_new(int align, int min_order, int max_order, int cache, const int64_t* sizes, int n, int64_t thr) {
  Logger::level() = LogLevel::kError;
  auto h = new H;
  h->os = std::make_shared<Os>(align);
  BuddyMemPoolOptions o{.buddy_first_segment_cap = size_t(1) << max_order, .buddy_min_order = (size_t)min_order, .buddy_max_order = (size_t)max_order};
  o.cache_small_obj_enabled = cache;
  for (int i = 0; i < n; ++i) o.cache_size_set.insert(sizes[i]);
  if (thr) {
    h->mm = std::make_shared<MemoryManager>();
    h->mm->registerAllocator(kCPU, h->os, MemoryManagerOptions{.really_large_tensor_threshold = (size_t)thr, .using_buddy_mem_pool = true, .buddy_mem_pool_options = o});
  } else h->pool = std::make_shared<BuddyMemPool>(o, h->os);
  return h;
}
int mem_del(void* p) {
  auto h = (H*)p;
  h->pool.reset();
  h->mm.reset();
  int left = h->os->segs.size();
  delete h;
  return left;
}
void* st_new(int64_t size, uint32_t id) {
  auto s = new S2;
  s->size_ = size;
  s->device_ = kCPU;
  s->custom_32bit_uuid_ = id;
  return (Storage*)s;
}
void st_del(void* s) { delete (S2*)(Storage*)s; }
char* mem_alloc(void* p, void* s) {
  auto h = (H*)p;
  if (h->mm) h->mm->alloc((Storage*)s);
  else h->pool->alloc((Storage*)s);
  return (char*)((Storage*)s)->ptr_;
}
void mem_free(void* p, void* s) {
  auto h = (H*)p;
  if (h->mm) h->mm->free((Storage*)s);
  else h->pool->free((Storage*)s);
}
void mem_sizes(void* p, const int64_t* sizes, int n) {
  std::unordered_set<size_t> x;
  for (int i = 0; i < n; ++i) x.insert(sizes[i]);
  ((H*)p)->pool->updateCacheSizeList(x);
}
int mem_nseg(void* p) { return ((H*)p)->os->segs.size(); }
char* mem_seg(void* p, int i) { return ((H*)p)->os->segs[i].first; }
int64_t mem_cap(void* p, int i) { return ((H*)p)->os->segs[i].second; }
int mem_ndirect(void* p) { return ((H*)p)->os->direct.size(); }
// several threads allocate, fill, verify and free; returns the number of corrupted blocks
int mem_threads(void* p, int threads, int rounds, int maxsize, uint32_t seed) {
  std::atomic<int> bad{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      std::minstd_rand rng(seed * 31 + t + 1);
      std::vector<std::pair<void*, unsigned char>> live;
      for (int r = 0; r < rounds; ++r) {
        if (live.size() < 6 && (live.empty() || rng() % 3)) {
          auto s = st_new(1 + rng() % maxsize, (uint32_t)(t * 1000000 + r));
          auto q = mem_alloc(p, s);
          unsigned char c = rng();
          memset(q, c, ((Storage*)s)->size_);
          live.push_back({s, c});
        } else {
          size_t i = rng() % live.size();
          auto s = (Storage*)live[i].first;
          for (size_t j = 0; j < s->size_; ++j)
            if (((unsigned char*)s->ptr_)[j] != live[i].second) { bad++; break; }
          mem_free(p, s);
          st_del(s);
          live.erase(live.begin() + i);
        }
      }
      for (auto& [s, c] : live) {
        mem_free(p, s);
        st_del(s);
      }
    });
  for (auto& t : ts) t.join();
  return bad;
}
}
