// Runs one service history (JSON on standard input) on the real Service and reports what every client saw.
#include <atomic>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <optional>
#include <thread>
#include "mllm/engine/service/Service.hpp"
using namespace mllm::service;
using nlohmann::json;
namespace {
void nap(int us) {
  if (us < 0) std::this_thread::yield();
  else if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
}
std::mutex meet_m;
std::condition_variable meet_cv;
std::map<std::string, int> meet_n;
// True when n requests of the group were in progress at the same time.
bool meet(const std::string& group, int n) {
  std::unique_lock lk(meet_m);
  ++meet_n[group];
  meet_cv.notify_all();
  return meet_cv.wait_for(lk, std::chrono::seconds(8), [&] { return meet_n[group] >= n; });
}
// Answers with what the request asks for: [token, pause before it], an error after token number `fail`.
struct Scripted final : Session {
  std::string tag;
  explicit Scripted(std::string t) : tag(std::move(t)) {}
  void streamGenerate(const json& r, const std::function<void(const json&, bool)>& cb) override {
    int i = 0, fail = r.value("fail", -1);
    const auto& s = r["script"];
    const bool end = r.value("end", true);
    if (r.contains("meet") && !meet(r["meet"][0], r["meet"][1])) {
      cb("the other workers never came", true);
      return;
    }
    for (const auto& t : s) {
      if (i == fail) {
        if (r.value("odd", false)) throw 7;
        throw std::runtime_error("scripted failure");
      }
      nap(t[1].get<int>());
      ++i;
      const bool last = end && i == (int)s.size();
      cb(i == 1 ? tag + t[0].get<std::string>() : t[0].get<std::string>(), last);
    }
    if (i == fail) throw std::runtime_error("scripted failure");
  }
};
}  // namespace
int main() {
  json c = json::parse(std::cin);
  json all = json::array();
  for (const auto& round : c["rounds"]) {
    std::map<std::string, std::shared_ptr<Session>> made;
    for (const auto& s : round["sessions"]) insertSession(s, std::make_shared<Scripted>(s.get<std::string>() + ":"));
    if (!round.value("late_start", false)) startService(round["workers"]);
    const int n = round["clients"].size();
    std::vector<json> log(n, json::array());
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    for (int k = 0; k < n; ++k)
      ts.emplace_back([&, k] {
        ready++;
        while (ready < n) std::this_thread::yield();
        for (const auto& a : round["clients"][k]) {
          const std::string what = a[0];
          if (what == "nap") nap(a[1]);
          else if (what == "send") log[k].push_back({"send", sendRequest(a[1].is_string() ? a[1].get<std::string>() : a[1].dump())});
          else if (what == "insert") insertSession(a[1], std::make_shared<Scripted>(a[1].get<std::string>() + ":"));
          else if (what == "burst") {
            // [burst, prefix, requests, session, pause after every so many, pause]
            const std::string pre = a[1], m = a[3];
            const int cnt = a[2], every = a[4];
            int good = 0;
            for (int i = 0; i < cnt; ++i) {
              sendRequest(json{{"id", pre + std::to_string(i)}, {"model", m}, {"script", json::array({json::array({"x", 0})})}}.dump());
              if (i % every == every - 1) nap(a[5]);
            }
            for (int i = 0; i < cnt; ++i) {
              auto r = json::parse(getResponse(pre + std::to_string(i)));
              good += r["finished"] == true && r["id"] == pre + std::to_string(i) && r["choices"][0]["delta"]["content"] == m + ":x";
            }
            log[k].push_back({"burst", good});
          } else if (what == "one") log[k].push_back({"one", a[1], json::parse(getResponse(a[1]))});
          else if (what == "recv") {
            json got = json::array();
            for (;;) {
              got.push_back(json::parse(getResponse(a[1])));
              if (got.back()["finished"]) break;
              nap(a[2]);
            }
            log[k].push_back({"recv", a[1], got});
          }
        }
      });
    if (round.value("late_start", false)) {
      nap(300);
      startService(round["workers"]);
    }
    const int m = round.value("orphans", 0);
    std::vector<json> orphan(m);
    std::vector<std::thread> os;
    for (int k = 0; k < m; ++k) os.emplace_back([&, k] { orphan[k] = json::parse(getResponse("nobody" + std::to_string(k))); });
    for (auto& t : ts) t.join();
    if (m) nap(500);
    stopService();
    for (auto& t : os) t.join();
    json out;
    out["clients"] = log;
    out["orphans"] = orphan;
    all.push_back(out);
  }
  std::cout << "\n@@" << all.dump(-1, ' ', false, json::error_handler_t::replace) << std::endl;
}
