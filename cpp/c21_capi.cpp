// Runs one history (JSON on standard input) through the C interface and reports what it saw.
#include <atomic>
#include <cstring>
#include <iostream>
#include <map>
#include <thread>
#include "nlohmann/json.hpp"
#include "mllm/c_api/Runtime.h"
#include "c21/scripted.hpp"
using nlohmann::json;
int main() {
  json c = json::parse(std::cin), out = json::object();
  std::map<std::string, MllmCAny> handles;
  const auto null_handle = MllmCAny{.type_id = kCustomObject, .v_custom_ptr = nullptr};
  auto n = [](const json& j) { return j.is_null() ? nullptr : j.get_ref<const std::string&>().c_str(); };
  out["plain"] = {isOk(initializeContext()), isOk(memoryReport()), convert2Int(c["int"]).v_int64 == c["int"].get<int64_t>(), convert2Int(1).type_id == kInt,
                  convert2Float(c["float"]).v_fp64 == c["float"].get<double>(), convert2Float(1).type_id == kFloat, !isOk(convert2Int(0)), !isOk(MllmCAny{.type_id = kRetCode, .v_return_code = -1}), !isOk(null_handle)};
  json rounds = json::array();
  for (const auto& round : c["rounds"]) {
    json setup = json::array();
    for (const auto& a : round["setup"]) {
      const std::string k = a[0];
      MllmCAny r = null_handle;
      if (k == "qwen" || k == "ocr") {
        r = k == "qwen" ? createQwen3Session(n(a[2])) : createDeepseekOCRSession(n(a[2]));
        if (isOk(r)) handles[a[1]] = r;
      }
      if (k == "insert") r = insertSession(n(a[1]), handles.count(a[2]) ? handles[a[2]] : a[2] == "code" ? MllmCAny{.type_id = kRetCode, .v_return_code = 0} : null_handle);
      if (k == "free") {
        r = freeSession(handles.count(a[1]) ? handles[a[1]] : null_handle);
        handles.erase(a[1]);
      }
      setup.push_back(isOk(r));
    }
    int started = isOk(startService(round["workers"]));
    const int m = round["clients"].size();
    std::vector<json> log(m, json::array());
    std::atomic<int> done{0};
    std::atomic<bool> down{false};
    std::vector<std::thread> ts, os;
    for (int k = 0; k < m; ++k)
      ts.emplace_back([&, k] {
        std::vector<std::pair<const char*, std::string>> kept;
        for (const auto& a : round["clients"][k]) {
          const std::string what = a[0];
          if (what == "send") {
            std::string text = a[2].is_string() ? a[2].get<std::string>() : a[2].dump();
            log[k].push_back(isOk(sendRequest(n(a[1]), a[2].is_null() ? nullptr : text.c_str())));
            std::fill(text.begin(), text.end(), '#');
          } else if (what == "poll") {
            json got = json::array();
            std::string id = a[1];
            while (const char* p = pollResponse(id.c_str())) {
              got.push_back(json::parse(p));
              if (a[2].get<bool>()) kept.push_back({p, p});
              else freeResponseString(p);
              if (got.size() > 300) break;
            }
            log[k].push_back(got);
          } else {
            for (done++; !down;) std::this_thread::sleep_for(std::chrono::microseconds(50));
            log[k].push_back(nullptr);
          }
        }
        int same = 0;
        for (auto& [p, s] : kept) same += s == p, freeResponseString(p);
        freeResponseString(nullptr);
        log[k].push_back(same == (int)kept.size());
      });
    std::vector<int> polls(round["orphans"].get<int>());
    for (int k = 0; k < (int)polls.size(); ++k) os.emplace_back([&, k] {
      std::string id = "nobody" + std::to_string(k);
      while (const char* p = pollResponse(id.c_str())) {
        freeResponseString(p);
        if (++polls[k] > 50) break;
      }
    });
    while (done < m) std::this_thread::sleep_for(std::chrono::microseconds(50));
    if (os.size()) std::this_thread::sleep_for(std::chrono::microseconds(400));
    int stopped = isOk(stopService());
    down = true;
    for (auto& t : ts) t.join();
    for (auto& t : os) t.join();
    rounds.push_back({{"setup", setup}, {"log", log}, {"started", started}, {"stopped", stopped}, {"polls", polls}, {"alive", Scripted::alive.load()}});
  }
  out["null poll"] = pollResponse(nullptr) == nullptr;
  for (auto& [_, h] : handles) freeSession(h);
  out["rounds"] = rounds;
  out["down"] = isOk(shutdownContext());
  std::cout << "\n@@" << out.dump(-1, ' ', false, json::error_handler_t::replace) << std::endl;
}
