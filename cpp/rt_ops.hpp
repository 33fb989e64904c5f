#pragma once
#include <string>
#include <vector>
#include "mllm/core/Tensor.hpp"
#include "mllm/backends/base/Backend.hpp"
// Provided by the wrapper of each check: which operators exist, and how to call one.
void rt_register(mllm::Backend& b);
std::vector<mllm::Tensor> rt_run(const std::string& name, const std::vector<mllm::Tensor>& in, const std::vector<double>& o);
mllm::Tensor& rt_get(int64_t h);
int64_t rt_put(const mllm::Tensor& t);
namespace {
struct Reader {
  const std::vector<double>& o;
  size_t k = 0;
  int i() { return (int)o.at(k++); }
  float f() { return (float)o.at(k++); }
  std::vector<int32_t> v() {
    int n = i();
    std::vector<int32_t> r;
    while (n-- > 0) r.push_back(i());
    return r;
  }
  std::vector<float> vf() {
    int n = i();
    std::vector<float> r;
    while (n-- > 0) r.push_back(f());
    return r;
  }
};
template<class F> void reg(mllm::Backend& b) { b.regOpFactory(std::make_shared<F>()); }
}  // namespace
