#include <cstring>
#include <memory>
#include <string>
#include "mllm/engine/prefix_cache/RadixTree.hpp"
#include "mllm/engine/prefix_cache/ZenFS.hpp"
#include "mllm/nn/lmcache/PrefixCache.hpp"
using namespace mllm;
using namespace mllm::prefix_cache;
extern "C" {
// ---- radix tree
void* tree_new(int blocks) { return new RadixTree(RadixTreeOptions{.transformer_blocks_num = blocks}); }
void tree_del(void* t) { delete (RadixTree*)t; }
void tree_clear(void* t) { ((RadixTree*)t)->clear(); }
int tree_insert(void* t, const int64_t* tok, int n, int64_t extra, int blocks, const uint32_t* k, const uint32_t* v) {
  RadixTreeNodeValue val;
  for (int b = 0; b < blocks; ++b) {
    val.k_cache_addresses.emplace_back(std::vector<vp_addr_t>(k + b * n, k + b * n + n));
    val.v_cache_addresses.emplace_back(std::vector<vp_addr_t>(v + b * n, v + b * n + n));
  }
  return ((RadixTree*)t)->insert(RadixTreeNodeKey(VectorView<int64_t>(std::vector<int64_t>(tok, tok + n)), extra), val);
}
static int out(const RadixSearchResult& r, int blocks, uint32_t* k, uint32_t* v, int* ok, int cap) {
  *ok = r.success;
  if (r.matched_length > cap) return r.matched_length;
  for (int b = 0; b < blocks; ++b) {
    if ((int)r.k_cache_addresses.at(b).size() != r.matched_length || (int)r.v_cache_addresses.at(b).size() != r.matched_length) return -1;
    for (int i = 0; i < r.matched_length; ++i) {
      k[b * cap + i] = r.k_cache_addresses[b][i];
      v[b * cap + i] = r.v_cache_addresses[b][i];
    }
  }
  return r.matched_length;
}
int tree_search(void* t, const int64_t* tok, int n, int64_t extra, int blocks, uint32_t* k, uint32_t* v, int* ok, int cap) {
  return out(((RadixTree*)t)->search(RadixTreeNodeKey(VectorView<int64_t>(std::vector<int64_t>(tok, tok + n)), extra)), blocks, k, v, ok, cap);
}
int tree_dot(void* t) { return (int)((RadixTree*)t)->dot().size(); }
// ---- paged address space
void* zen_new(int page_bits, int lane_bits, int ele, int dtype, int file, int record, const char* dir) {
  ZenFileSystemOptions o;
  o.record = record;
  o.working_dir = dir;
  o.page_bits = page_bits;
  o.lane_bits = lane_bits;
  o.blob_bits_size = 32 - page_bits - lane_bits;
  o.per_k_token_ele = o.per_v_token_ele = ele;
  o.k_dtype = o.v_dtype = (DataTypes)dtype;
  o.mmap_type = file ? ZenFSBlobMMapType::kFile : ZenFSBlobMMapType::kAnonymous;
  auto z = new ZenFileSystem();
  z->initialize(o);
  return z;
}
void* zen_recover(const char* dir) {
  auto z = new ZenFileSystem();
  z->recover(dir);
  return z;
}
void zen_del(void* z) { delete (ZenFileSystem*)z; }
uint32_t zen_malloc(void* z) { return ((ZenFileSystem*)z)->malloc(); }
void zen_free(void* z, uint32_t a) { ((ZenFileSystem*)z)->free(a); }
char* zen_access(void* z, uint32_t a) { return ((ZenFileSystem*)z)->access(a); }
void zen_prefetch(void* z, uint32_t a) { ((ZenFileSystem*)z)->hintsPrefetch(a); }
void zen_purge(void* z, uint32_t a) { ((ZenFileSystem*)z)->hintsPurge(a); }
void zen_finalize(void* z) { ((ZenFileSystem*)z)->finalize(); }
int dtype_bytes(int d) { return bytesOfType((DataTypes)d); }
int dtype_lanes(int d) { return lanesOfType((DataTypes)d); }
uint32_t a_blob(uint32_t a, int p, int l) { return getBlobAddr(a, p, l); }
uint32_t a_page(uint32_t a, int p, int l) { return getPageAddr(a, p, l); }
uint32_t a_lane(uint32_t a, int p, int l) { return getLaneAddr(a, p, l); }
// ---- prefix cache of a model
void* pc_new(int layers, int kele, int vele, int dtype, int page_bits, int lane_bits, int window, const int* swl, int file, const char* dir) {
  nn::PrefixCacheOptions o;
  o.total_layers = layers;
  o.per_k_token_ele_num = kele;
  o.per_v_token_ele_num = vele;
  o.k_dtype = o.v_dtype = (DataTypes)dtype;
  o.zen_fs_working_dir = dir;
  o.zen_fs_page_bits = page_bits;
  o.zen_fs_lane_bits = lane_bits;
  o.zen_fs_mem_type = file ? ZenFSBlobMMapType::kFile : ZenFSBlobMMapType::kAnonymous;
  if (window > 0) {
    o.hybrid_sliding_window_cache = true;
    o.sliding_window_size = window;
    std::vector<bool> w;
    for (int i = 0; i < layers; ++i) w.push_back(swl[i]);
    o.sliding_window_layers = w;
  }
  return new nn::CpuPrefixCache(o);
}
void pc_del(void* c) { delete (nn::CpuPrefixCache*)c; }
uint32_t pc_alloc(void* c, int layer, int v) { return v ? ((nn::CpuPrefixCache*)c)->allocValue(layer) : ((nn::CpuPrefixCache*)c)->allocKey(layer); }
void pc_free(void* c, int layer, int v, uint32_t a) { v ? ((nn::CpuPrefixCache*)c)->freeValue(layer, a) : ((nn::CpuPrefixCache*)c)->freeKey(layer, a); }
char* pc_addr(void* c, int layer, int v, uint32_t a) { return v ? ((nn::CpuPrefixCache*)c)->physicalAddrValue(layer, a) : ((nn::CpuPrefixCache*)c)->physicalAddrKey(layer, a); }
void pc_purge(void* c, int layer, int v, uint32_t a) { v ? ((nn::CpuPrefixCache*)c)->purgeValue(layer, a) : ((nn::CpuPrefixCache*)c)->purgeKey(layer, a); }
void pc_prefetch(void* c, int layer, int v, uint32_t a) { v ? ((nn::CpuPrefixCache*)c)->prefetchValue(layer, a) : ((nn::CpuPrefixCache*)c)->prefetchKey(layer, a); }
void pc_promote(void* c, const int64_t* tok, int n, int64_t extra, int layers, const uint32_t* k, const uint32_t* v) {
  std::vector<std::vector<vp_addr_t>> ks, vs;
  for (int b = 0; b < layers; ++b) {
    ks.emplace_back(k + b * n, k + b * n + n);
    vs.emplace_back(v + b * n, v + b * n + n);
  }
  ((nn::PrefixCache*)c)->promote(std::vector<int64_t>(tok, tok + n), ks, vs, extra);
}
int pc_find(void* c, const int64_t* tok, int n, int layers, uint32_t* k, uint32_t* v, int* ok, int cap) {
  return out(((nn::CpuPrefixCache*)c)->find(std::vector<int64_t>(tok, tok + n)), layers, k, v, ok, cap);
}
void pc_window(void* c, const int64_t* tok, int n) { ((nn::CpuPrefixCache*)c)->evictSlidingWindowLayerOn(std::vector<int64_t>(tok, tok + n)); }
}
