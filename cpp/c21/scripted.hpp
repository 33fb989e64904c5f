// Sessions that answer with what the request asks for, in place of the models.
#pragma once
#include <atomic>
#include <chrono>
#include <functional>
#include <stdexcept>
#include <string>
#include <thread>
#include "mllm/engine/service/Session.hpp"
struct Scripted : mllm::service::Session {
  static inline std::atomic<int> alive{0};
  std::string tag;
  explicit Scripted(std::string t) : tag(std::move(t)) { alive++; }
  ~Scripted() { alive--; }
  void fromPreTrain(const std::string& path) override {
    if (path.rfind("bad", 0) == 0) throw std::runtime_error("no model there");
    tag += path + ":";
  }
  void streamGenerate(const nlohmann::json& r, const std::function<void(const nlohmann::json&, bool)>& cb) override {
    int i = 0, fail = r.value("fail", -1);
    for (const auto& t : r["script"]) {
      if (i == fail) throw std::runtime_error("scripted failure");
      if (int us = t[1]; us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us));
      cb(i++ == 0 ? tag + t[0].get<std::string>() : t[0].get<std::string>(), false);
    }
    if (i == fail) throw std::runtime_error("scripted failure");
    if (r.value("end", true)) cb("", true);
  }
};
