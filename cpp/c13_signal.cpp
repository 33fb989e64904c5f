// Interpolate, STFT/ISTFT, audio files and images.
#include "rt_ops.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/core/aops/InterpolateOp.hpp"
#include "mllm/core/aops/STFTOp.hpp"
#include "mllm/core/aops/ISTFTOp.hpp"
#include "mllm/preprocessor/audio/Audio.hpp"
#include "mllm/preprocessor/visual/ImageTransform.hpp"
#include "mllm/backends/cpu/CPUBackend.hpp"
using namespace mllm;
void rt_register(Backend&) {}
std::vector<Tensor> rt_run(const std::string& n, const std::vector<Tensor>& in, const std::vector<double>& o) {
  Reader r{o};
  auto go = [&](OpTypes t, const auto& x) { return Context::instance().buildOpAndSubmitTask(t, x, in); };
  const char* pads[] = {"constant", "reflect", "same"};
  if (n == "interpolate") {
    aops::InterpolateOpOptions x;
    x.mode = (aops::InterpolateOpMode)r.i(), x.align_corners = r.i(), x.antialias = r.i(), x.size = r.v(), x.scale_factor = r.vf();
    return go(OpTypes::kInterpolate, x);
  }
  if (n == "stft") {
    aops::STFTOpOptions x;
    x.n_fft = r.i(), x.hop_length = r.i(), x.win_length = r.i(), x.center = r.i(), x.pad_mode = pads[r.i()], x.return_complex = r.i();
    return go(OpTypes::kSTFT, x);
  }
  if (n == "istft") {
    aops::ISTFTOpOptions x;
    x.n_fft = r.i(), x.hop_length = r.i(), x.win_length = r.i(), x.center = r.i(), x.pad_mode = pads[r.i()];
    return go(OpTypes::kISTFT, x);
  }
  if (n == "normalize") {
    auto m = r.vf(), s = r.vf();
    return {Normalize(m, s).apply(in[0])};
  }
  throw std::invalid_argument(n);
}
namespace {
std::vector<Image> imgs;
std::vector<float> out;
int keep(Image i) {
  imgs.push_back(i);
  return (int)imgs.size() - 1;
}
}  // namespace
extern "C" {
long a_read(const char* f, int rate) {
  out = audio::readWAV(f, rate);
  return (long)out.size();
}
// one file: clips x bins x frames
long a_process(const char* f, int rate, int* shape) {
  auto v = audio::processWAV({f}, rate);
  out.clear();
  shape[0] = v.size(), shape[1] = v[0].size(), shape[2] = v[0][0].size(), shape[3] = v[0][0][0].size();
  for (auto& a : v)
    for (auto& b : a)
      for (auto& c : b) out.insert(out.end(), c.begin(), c.end());
  return (long)out.size();
}
const float* a_data() { return out.data(); }
void i_clear() { imgs.clear(); }
int i_open(const char* f) { return keep(Image::open(f)); }
void i_save(int i, const char* f) { imgs[i].save(f); }
const unsigned char* i_info(int i, int* whc) {
  whc[0] = imgs[i].w(), whc[1] = imgs[i].h(), whc[2] = imgs[i].c();
  return imgs[i].ptr();
}
int i_crop(int i, int a, int b, int c, int d) { return keep(imgs[i].crop(a, b, c, d)); }
int i_pad(int i, int w, int h, int r, int g, int b) { return keep(imgs[i].pad(w, h, r, g, b)); }
int i_resize(int i, int w, int h, int cubic) { return keep(cubic ? imgs[i].resize(w, h, "bicubic") : imgs[i].resize(w, h)); }
int i_shorter(int i, int s) { return keep(Resize(s).apply(imgs[i])); }
int i_hw(int i, int h, int w) { return keep(Resize(h, w).apply(imgs[i])); }
int i_center(int i, int h, int w) { return keep(h == w ? CenterCrop(h).apply(imgs[i]) : CenterCrop(h, w).apply(imgs[i])); }
int64_t i_tensor(int i, int to) { return rt_put(to ? ToTensor().apply(imgs[i]) : imgs[i].tensor()); }
// The whole pipeline: shorter side (or 0), explicit size (or 0), crop (or 0), mean and std (or none).
int64_t i_pipe(int i, int shorter, int rh, int rw, int ch, int cw, const float* m, const float* s, int square) {
  std::optional<std::vector<float>> mm, ss;
  if (m) mm.emplace(m, m + 3), ss.emplace(s, s + 3);
  std::optional<int> sh;
  if (shorter) sh = shorter;
  if (square) {
    std::optional<int> c;
    if (ch) c = ch;
    return rt_put(BasicImageTransform(sh, c, mm, ss)(imgs[i]));
  }
  std::optional<std::pair<int, int>> r, c;
  if (rh) r = {rh, rw};
  if (ch) c = {ch, cw};
  return rt_put(BasicImageTransform(sh, r, c, mm, ss)(imgs[i]));
}
}
