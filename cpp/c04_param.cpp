// Model files: the parameter files of the runtime, by handle.
#include <map>
#include "rt_ops.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/engine/Context.hpp"
#include "mllm/backends/cpu/ops/ContiguousOp.hpp"
using namespace mllm;
void rt_register(Backend& b) { reg<cpu::CPUContiguousOpFactory>(b); }
std::vector<Tensor> rt_run(const std::string&, const std::vector<Tensor>& in, const std::vector<double>&) { return in; }
namespace {
std::map<int64_t, ParameterFile::ptr_t> files;
int64_t next_file = 1;
using V1 = ParameterFileIOImpl<kCPU, ModelFileVersion::kV1>;
using V2 = ParameterFileIOImpl<kCPU, ModelFileVersion::kV2>;
}  // namespace
extern "C" {
int64_t pf_new(int version) {
  files[next_file] = ParameterFile::create((ModelFileVersion)version);
  return next_file++;
}
void pf_free(int64_t h) { files.erase(h); }
void pf_push(int64_t h, const char* name, int len, int64_t t) { files.at(h)->push(std::string(name, len), rt_get(t)); }
int pf_has(int64_t h, const char* name, int len) { return files.at(h)->has(std::string(name, len)); }
void pf_remove(int64_t h, const char* name, int len) { files.at(h)->remove(std::string(name, len)); }
int pf_size(int64_t h) { return (int)files.at(h)->dict().size(); }
int pf_version(int64_t h) { return (int)files.at(h)->version(); }
int64_t pf_pull(int64_t h, const char* name, int len) { return rt_put(files.at(h)->pull(std::string(name, len))); }
// -1: an exception
int pf_write(int64_t h, int version, const char* path) {
  try {
    if (version == 1) V1::write(files.at(h), path);
    else V2::write(files.at(h), path);
    return 0;
  } catch (const std::exception&) { return -1; }
}
int64_t pf_read(int version, const char* path, int map) {
  try {
    files[next_file] = version == 1 ? V1::read(path, map) : V2::read(path, map);
    return next_file++;
  } catch (const std::exception&) { return -1; }
}
int dt_lanes(int d) { return (int)lanesOfType((DataTypes)d); }
int dt_bytes(int d) { return (int)bytesOfType((DataTypes)d); }
}
