// One command line. Input: "opt T flags def req" per option ("-" none, texts in hex behind ':'), then "argv :hex" words. Prints every value under every name.
#include <algorithm>
#include <cstdio>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "mllm/utils/Argparse.hpp"
using namespace mllm;
static std::string unhex(const std::string& h) {
  std::string o;
  for (size_t i = 1; i + 1 < h.size(); i += 2) o.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}
static void show(const std::string& s) {
  printf(":");
  for (unsigned char c : s) printf("%02x", c);
  printf("\n");
}
static void show(int v) { printf("%d\n", v); }
static void show(long v) { printf("%ld\n", v); }
static void show(float v) { printf("%.9g\n", v); }
static void show(bool v) { printf("%d\n", (int)v); }
template<typename T>
static std::function<void()> add(const std::string& flags, const std::string& def, bool req) {
  std::string f = flags == "-" ? "" : unhex(flags);
  auto& a = Argparse::add<T>(f).help("h").meta("m").required(req);
  if (def != "-") {
    if constexpr (std::is_same_v<T, std::string>) a.def(unhex(def));
    else {
      std::istringstream is(def);
      T v;
      is >> v;
      a.def(v);
    }
  }
  return [f, &a] {
    show(a.get());
    printf("%d\n", (int)a.isSet());
    std::istringstream is(f);
    std::string n;
    while (std::getline(is, n, '|'))
      if (!n.empty()) show(Argparse::get<T>(n));
  };
}
int main() {
  std::vector<std::function<void()>> shows;
  std::vector<std::string> words{"prog"};
  std::string k, t, f, d;
  int r;
  while (std::cin >> k) {
    if (k == "argv") {
      std::cin >> d;
      words.push_back(unhex(d));
      continue;
    }
    std::cin >> t >> f >> d >> r;
    if (t == "i") shows.push_back(add<int>(f, d, r));
    if (t == "l") shows.push_back(add<long>(f, d, r));
    if (t == "f") shows.push_back(add<float>(f, d, r));
    if (t == "b") shows.push_back(add<bool>(f, d, r));
    if (t == "s") shows.push_back(add<std::string>(f, d, r));
  }
  std::vector<char*> argv;
  for (auto& w : words) argv.push_back(w.data());
  Argparse::parse((int)argv.size(), argv.data());
  printf("\nVALUES\n");
  for (auto& s : shows) s();
  fflush(stdout);
  return 0;
}
