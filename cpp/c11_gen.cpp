// The generation loop and the samplers of the C++ runtime around a scripted network.
#include <random>
#include "rt_ops.hpp"
#include "mllm/models/ARGeneration.hpp"
#include "mllm/engine/Context.hpp"
using namespace mllm;
using namespace mllm::models;
namespace {
std::vector<uint32_t> seeds;
size_t next_seed = 0;
}  // namespace
// Every draw of the samplers starts from std::random_device: the harness supplies its values.
std::random_device::result_type std::random_device::_M_getval() { return seeds.empty() ? 12345u : seeds[next_seed++ % seeds.size()]; }
void rt_register(Backend&) {}
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>& in, const std::vector<double>& o) { throw std::invalid_argument(n); }
namespace {
// fills logits [rows, vocab] for this history; returns the number of rows
using Net = int (*)(const int64_t* seen, int n, int fresh, int extra, float* logits);
struct Scripted final : ARGeneration {
  Net net = nullptr;
  int vocab = 1;
  bool all_rows = false;
  void set(int eos, int max_len, bool sample) { eos_token_id_ = eos, max_length_ = max_len, do_sample_ = sample; }
  ARGenerationOutputPast forward(const ARGenerationOutputPast& in, const ARGenerationArgs& args) override {
    auto seq = in.at("sequence");
    int fresh = seq.shape()[1];
    std::vector<int64_t> h;
    if (in.count("history") && in.at("history")) {
      auto t = in.at("history");
      h.assign(t.ptr<int64_t>(), t.ptr<int64_t>() + t.numel());
    }
    for (int i = 0; i < fresh; ++i) h.push_back(seq.at<mllm_int64_t>({0, i}));
    int rows = all_rows ? fresh : 1;
    auto logits = Tensor::empty({1, rows, vocab}, kFloat32, kCPU).alloc();
    net(h.data(), h.size(), fresh, in.count("picture") + 2 * (seq.shape().size() != 2 || seq.shape()[0] != 1 || seq.dtype() != kInt64), logits.ptr<float>());
    auto hist = Tensor::empty({(int32_t)h.size()}, kInt64, kCPU).alloc();
    std::copy(h.begin(), h.end(), hist.ptr<int64_t>());
    return {{"sequence", logits}, {"history", hist}};
  }
};
Scripted& model() {
  static Scripted m;
  return m;
}
std::string err;
}  // namespace
extern "C" {
void g_seeds(int n, const uint32_t* s) {
  Context::instance().setCpuOpThreads(1);
  seeds.assign(s, s + n);
  next_seed = 0;
}
const char* g_error() { return err.c_str(); }
// mode 0 generate, 1 streamGenerate, 2 chat. opt: six (given, value) pairs: temperature top_k top_p max_length eos do_sample
int g_run(int mode, Net net, int vocab, int all_rows, int picture, int eos, int max_len, int sample, int n, const int64_t* prompt, const double* opt,
          int64_t* out, int64_t* steps, int cap) {
  auto& m = model();
  m.net = net, m.vocab = vocab, m.all_rows = all_rows;
  m.set(eos, max_len, sample);
  try {
    auto seq = Tensor::empty({1, n}, kInt64, kCPU).alloc();
    std::copy(prompt, prompt + n, seq.ptr<int64_t>());
    ARGenerationOutputPast in{{"sequence", seq}};
    if (picture) in["picture"] = Tensor::empty({2}, kFloat32, kCPU).alloc();
    ARGenerationArgs a;
    if (opt[0]) a["temperature"] = AnyValue((float)opt[1]);
    if (opt[2]) a["top_k"] = AnyValue((int)opt[3]);
    if (opt[4]) a["top_p"] = AnyValue((float)opt[5]);
    if (opt[6]) a["max_length"] = AnyValue((int)opt[7]);
    if (opt[8]) a["eos_token_id"] = AnyValue((int)opt[9]);
    if (opt[10]) a["do_sample"] = AnyValue((bool)opt[11]);
    int k = 0;
    auto emit = [&](int64_t t, int64_t s) {
      if (k < cap) out[k] = t, steps[k] = s;
      ++k;
    };
    if (mode == 0) {
      auto r = m.generate(in, a);
      auto g = r.at("generated_sequence");
      if (g.shape().size() != 1) throw std::runtime_error("generated_sequence is not one-dimensional");
      for (int i = 0; i < g.shape()[0]; ++i) emit(g.ptr<mllm_int64_t>()[i], i);
    } else if (mode == 1) {
      m.streamGenerate(in, a, [&](int64_t t) { emit(t, k); });
    } else {
      for (auto& s : m.chat(in, a)) emit(s.cur_token_id, s.current_step);
    }
    return k;
  } catch (const std::exception& e) {
    err = e.what();
    return -1;
  }
}
// kind 0 greedy, 1 temperature, 2 top-k, 3 top-p: draws from the last row of [1, rows, vocab]
int g_sample(int kind, int rows, int vocab, const float* logits, double arg, double temp, int draws, int64_t* out) {
  try {
    for (int i = 0; i < draws; ++i) {
      auto t = Tensor::empty({1, rows, vocab}, kFloat32, kCPU).alloc();
      std::copy(logits, logits + (size_t)rows * vocab, t.ptr<float>());
      out[i] = kind == 0 ? model().sampleGreedy(t) : kind == 1 ? model().sampleTemperature(t, temp) : kind == 2 ? model().sampleTopK(t, (int)arg, temp) : model().sampleTopP(t, arg, temp);
    }
    return draws;
  } catch (const std::exception& e) {
    err = e.what();
    return -1;
  }
}
}
