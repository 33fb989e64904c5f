// Stands in for the C library below the Go server: every request carries the script of its answer, all calls are logged.
#include <unistd.h>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include "nlohmann/json.hpp"
#include "mllm/c_api/Runtime.h"
using nlohmann::json;
namespace {
std::mutex m;
std::condition_variable cv;
struct Req {
  json script, images;
  size_t at = 0;
  bool ended = false;
};
std::map<std::string, Req> reqs;
std::map<std::string, void*> inserted;
std::set<void*> sessions;
std::set<const char*> strings;
void log(const json& j) {
  static FILE* f = fopen(getenv("SDK_LOG"), "a");
  auto s = j.dump(-1, ' ', true, json::error_handler_t::replace) + "\n";
  fwrite(s.data(), 1, s.size(), f);
  fflush(f);
}
MllmCAny ret(int v) {
  MllmCAny a;
  memset(&a, 0, sizeof a);
  a.type_id = kRetCode;
  a.v_return_code = v;
  return a;
}
// The image as the session finds it: null if it can't be read.
json look(const json& paths) {
  json r = json::array();
  for (auto& p : paths) {
    if (!p.is_string()) { r.push_back(nullptr); continue; }
    std::ifstream f(p.get<std::string>(), std::ios::binary);
    if (!f) { r.push_back(nullptr); continue; }
    std::string s((std::istreambuf_iterator<char>(f)), {});
    json b = json::array();
    for (unsigned char c : s) b.push_back(c);
    r.push_back(b);
  }
  return r;
}
}  // namespace
extern "C" {
MllmCAny initializeContext() { return ret(0); }
MllmCAny shutdownContext() { return ret(0); }
MllmCAny memoryReport() { return ret(0); }
int32_t isOk(MllmCAny r) { return (r.type_id == kRetCode && r.v_return_code == 0) || (r.type_id == kCustomObject && r.v_custom_ptr); }
MllmCAny convert2String(char*, size_t) { return ret(-1); }
MllmCAny convert2ByteArray(char*, size_t) { return ret(-1); }
MllmCAny convert2Int(int64_t) { return ret(-1); }
MllmCAny convert2Float(double) { return ret(-1); }
MllmCAny startService(size_t) { return ret(0); }
MllmCAny stopService() { return ret(0); }
void setLogLevel(int) {}
MllmCAny createQwen3Session(const char* path) {
  std::lock_guard<std::mutex> l(m);
  MllmCAny a;
  memset(&a, 0, sizeof a);
  a.type_id = kCustomObject;
  a.v_custom_ptr = new std::string(path);
  sessions.insert(a.v_custom_ptr);
  return a;
}
MllmCAny createDeepseekOCRSession(const char* path) { return createQwen3Session(path); }
MllmCAny insertSession(const char* id, MllmCAny h) {
  std::lock_guard<std::mutex> l(m);
  inserted[id] = h.v_custom_ptr;
  return ret(0);
}
MllmCAny freeSession(MllmCAny h) {
  std::lock_guard<std::mutex> l(m);
  if (!sessions.erase(h.v_custom_ptr)) log({{"wrong", "a session was freed twice"}});
  return ret(0);
}
MllmCAny sendRequest(const char* id, const char* text) {
  std::lock_guard<std::mutex> l(m);
  json j = json::parse(text, nullptr, false);
  log({{"send", id}, {"text", text}});
  if (!j.is_object() || !j.contains("id") || !j["id"].is_string()) return ret(-1);
  auto s = j.value("x_script", json::object());
  if (s.value("refuse", false)) return ret(-1);
  auto& r = reqs[j["id"]];
  r = {};
  r.script = s;
  r.images = json::array();
  if (j.contains("messages") && j["messages"].is_array())
    for (auto& x : j["messages"])
      if (x.is_object() && x.contains("images") && x["images"].is_array())
        for (auto& p : x["images"]) r.images.push_back(p);
  return ret(0);
}
const char* pollResponse(const char* id) {
  json chunk, images;
  std::string gate;
  bool end = false, first = false, last = false;
  {
    std::lock_guard<std::mutex> l(m);
    auto it = reqs.find(id);
    if (it == reqs.end()) {
      log({{"wrong", "an answer was waited for that no request asked for"}, {"id", id}});
      return nullptr;
    }
    auto& r = it->second;
    if (r.ended) {
      log({{"wrong", "an answer was waited for after its end"}, {"id", id}});
      return nullptr;
    }
    auto& cs = r.script["chunks"];
    first = r.at == 0;
    if (r.at < cs.size()) {
      chunk = cs[r.at++];
      last = r.at == cs.size() && r.script.value("stop", false);
      if (r.at == 2) gate = r.script.value("gate", "");
      r.ended = last;
    } else
      r.ended = end = true;
    images = r.images;
  }
  if (!gate.empty()) {
    int k = 0;
    while (access(gate.c_str(), F_OK) && ++k < 3000) std::this_thread::sleep_for(std::chrono::milliseconds(2));
    if (k >= 3000) log({{"wrong", "the client did not get the first piece of its answer in time"}, {"id", id}});
  }
  if (chunk.is_object()) std::this_thread::sleep_for(std::chrono::microseconds(chunk.value("us", 0)));
  if (first || end || last) log({{"look", id}, {"images", look(images)}});
  if (end || last) log({{"end", id}});
  if (end) return nullptr;
  auto text = chunk["raw"].get<std::string>();
  auto* p = new char[text.size() + 1];
  memcpy(p, text.c_str(), text.size() + 1);
  std::lock_guard<std::mutex> l(m);
  strings.insert(p);
  return p;
}
void freeResponseString(const char* p) {
  std::lock_guard<std::mutex> l(m);
  if (!strings.erase(p)) log({{"wrong", "a response was freed twice"}});
  else delete[] p;
  if (strings.size() > 64) log({{"wrong", "responses are not freed"}});
}
}
