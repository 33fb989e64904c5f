// Stand-in for the tensor runtime, for the parts of the engine that only need tensors as buffers.
#include <cstdlib>
#include <memory>
#include <vector>
#include "mllm/core/Tensor.hpp"
#include "mllm/engine/Context.hpp"

namespace mllm {
static std::vector<std::shared_ptr<char>>& bufs() {
  static std::vector<std::shared_ptr<char>> b;
  return b;
}
Context& Context::instance() {
  alignas(Context) static char raw[sizeof(Context)];
  return *reinterpret_cast<Context*>(raw);
}
uint32_t Context::getUUID() {
  static uint32_t n = 0;
  return n++;
}
void MemoryManager::free(Storage* s) {}
Tensor::Tensor(const std::shared_ptr<TensorViewImpl>& impl) : impl_(impl) {}
size_t Tensor::numel() const { return impl_ ? impl_->numel() : 0; }
size_t Tensor::bytes() const { return impl_->numel() / lanesOfType(impl_->dtype()) * bytesOfType(impl_->dtype()); }
DeviceTypes Tensor::device() const { return impl_->device(); }
DataTypes Tensor::dtype() const { return impl_->dtype(); }
Tensor::shape_t Tensor::shape() const { return impl_->shape(); }
Tensor Tensor::zeros(const std::vector<int32_t>& shape, DataTypes dtype, DeviceTypes device) {
  auto s = TensorStorage::create(shape, dtype, device);
  char* p = (char*)calloc(1, s->size_ ? s->size_ : 1);
  bufs().push_back(std::shared_ptr<char>(p, free));
  s->ptr_ = p;
  s->mem_type_ = kManual;
  return Tensor(TensorViewImpl::create(shape, s));
}
}  // namespace mllm
extern "C" void stub_reset() { mllm::bufs().clear(); }
