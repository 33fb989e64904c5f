// Interpreters for histories of AnyValue and IntrusivePtr registers, and splitString.
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "mllm/utils/AnyValue.hpp"
#include "mllm/utils/IntrusivePtr.hpp"
#include "mllm/utils/StringHelper.hpp"
using namespace mllm;
static int alive = 0;
struct Obj {
  long v;
  std::shared_ptr<int> body = std::make_shared<int>(0);
  explicit Obj(long x) : v(x) { ++alive; }
  Obj(const Obj& o) : v(o.v) { ++alive; }
  Obj(Obj&& o) noexcept : v(o.v) { ++alive; o.v = -1; }
  Obj& operator=(const Obj& o) { v = o.v; return *this; }
  Obj& operator=(Obj&& o) noexcept { v = o.v; if (this != &o) o.v = -1; return *this; }
  ~Obj() { --alive; }
};
struct Pair { std::string a; Obj b{0}; AnyValue c; };
struct Fails { Fails() = default; Fails(const Fails&) { throw 1; } };
static std::string look(const AnyValue& a) {
  std::ostringstream o;
  if (!a.has_value()) return a.type() == typeid(void) && !a.get_if<long>() && !a.is_reference() ? "none" : "wrong";
  o << (a.is_reference() ? "ref " : "own ");
  int hits = 0;
  if (auto* p = a.get_if<long>()) ++hits, o << "long " << *p << (a.type() == typeid(long) ? "" : " type");
  if (auto* p = a.get_if<std::string>()) ++hits, o << "string " << *p << (a.type() == typeid(std::string) ? "" : " type");
  if (auto* p = a.get_if<Obj>()) ++hits, o << "obj " << p->v << (a.type() == typeid(Obj) ? "" : " type");
  if (auto* p = a.get_if<Pair>()) ++hits, o << "pair " << p->a << "," << p->b.v << (a.type() == typeid(Pair) ? "" : " type");
  try {
    (void)a.get<float>();
    o << " cast";
  } catch (const bad_any_value_cast&) {}
  try {
    (void)a.get<long>();
    if (a.type() != typeid(long)) o << " cast";
  } catch (const std::bad_cast&) {
    if (a.type() == typeid(long)) o << " nocast";
  }
  return hits == 1 ? o.str() : "wrong";
}
extern "C" int c20_any(const char* prog, char* out, int cap) {
  std::istringstream ss(prog);
  std::ostringstream o;
  int before = alive;
  {
    long el[2] = {100, 101};
    std::string es[2] = {"e0", "e1"};
    Obj eo[2] = {Obj(200), Obj(201)};
    AnyValue r[4];
    std::string k;
    while (ss >> k) {
      int i, j;
      ss >> i >> j;
      std::string t;
      if (k == "copytag" || k == "make" || k == "emplace" || k == "assign" || k == "lvalue" || k == "set") {
        ss >> t;
        long v = j;
        std::string s = "s" + std::to_string(j) + std::string(j % 40, 'x');
        Obj ob(j);
        Pair p{s, Obj(j)};
        auto put = [&](auto& x) {
          using T = std::decay_t<decltype(x)>;
          if (k == "copytag") r[i] = AnyValue(any_copy_tag, x);
          if (k == "make") r[i] = AnyValue(T(x));
          if (k == "emplace") r[i].emplace<T>(x);
          if (k == "assign") r[i] = T(x);
          if (k == "lvalue") r[i] = x;
          if (k == "set") { if (auto* q = r[i].get_if<T>()) *q = x; }
        };
        if (t == "long") put(v);
        if (t == "string") put(s);
        if (t == "obj") put(ob);
        if (t == "pair") put(p);
      }
      if (k == "refl") r[i] = AnyValue(el[j]);
      if (k == "refs") r[i] = AnyValue(es[j]);
      if (k == "refo") r[i] = AnyValue(eo[j]);
      if (k == "copy") r[i] = r[j];
      if (k == "move") r[i] = std::move(r[j]);
      if (k == "build") { AnyValue x(r[j]); AnyValue y(std::move(x)); r[i] = y; if (x.has_value()) o << "moved?"; }
      if (k == "swap") r[i].swap(r[j]);
      if (k == "reset") r[i].reset();
      if (k == "part") {
        if (auto* p = r[i].get_if<Pair>()) {
          if (j % 2) r[i] = p->a;
          else r[i].emplace<Obj>(p->b);
        }
      }
      if (k == "fail") {
        Fails f;
        try { r[i].emplace<Fails>(f); o << "no throw"; } catch (int) {}
      }
      for (auto& a : r) o << look(a) << ";";
      o << el[0] << "," << el[1] << "," << es[0] << "," << es[1] << "," << eo[0].v << "," << eo[1].v << ";" << "\n";
    }
    for (auto& a : r) a.reset();
    o << alive - before << "\n";
  }
  o << alive - before;
  auto s = o.str();
  strncpy(out, s.c_str(), cap - 1);
  return (int)s.size();
}
static int live = 0;
struct Base : RefCountedBase {
  int n;
  explicit Base(int n) : n(n) { ++live; }
  ~Base() override { --live; }
};
struct Derived : Base {
  std::vector<int> more;
  explicit Derived(int n) : Base(n), more(8, n) {}
};
extern "C" int c20_ptr(const char* prog, char* out, int cap) {
  std::istringstream ss(prog);
  std::ostringstream o;
  int before = live;
  {
    IntrusivePtr<Base> b[3];
    IntrusivePtr<Derived> d[3];
    std::string k;
    while (ss >> k) {
      int i, j;
      ss >> i >> j;
      if (k == "makeb") b[i] = make_intrusive<Base>(j);
      if (k == "maked") d[i] = make_intrusive<Derived>(j);
      if (k == "copyb") b[i] = b[j];
      if (k == "copyd") d[i] = d[j];
      if (k == "moveb") b[i] = std::move(b[j]);
      if (k == "moved") d[i] = std::move(d[j]);
      if (k == "up") b[i] = d[j];
      if (k == "upmove") b[i] = std::move(d[j]);
      if (k == "upnew") { IntrusivePtr<Base> x(d[j]); b[i] = x; }
      if (k == "upnewmove") { IntrusivePtr<Base> x(std::move(d[j])); b[i] = std::move(x); }
      if (k == "rawb") b[i] = b[j].get();
      if (k == "rawd") b[i].reset(d[j].get());
      if (k == "resetb") b[i].reset();
      if (k == "resetd") d[i].reset();
      if (k == "swapb") swap(b[i], b[j]);
      if (k == "swapd") d[i].swap(d[j]);
      for (auto& p : b) o << (p ? p->n : -1) << ":" << p.use_count() << " ";
      for (auto& p : d) o << (p ? (*p).more[7] : -1) << ":" << p.use_count() << " ";
      o << (b[i] == b[j]) << (b[i] == d[j]) << (d[i] != d[j]) << " " << live - before << "\n";
    }
  }
  o << live - before;
  auto s = o.str();
  strncpy(out, s.c_str(), cap - 1);
  return (int)s.size();
}
extern "C" int c20_split(const char* s, int n, const char* sep, int m, int maxsplit, char* out, int* lens) {
  auto r = splitString(std::string(s, n), std::string(sep, m), maxsplit);
  for (size_t i = 0; i < r.size(); ++i) {
    memcpy(out, r[i].data(), r[i].size());
    out += r[i].size();
    lens[i] = (int)r[i].size();
  }
  return (int)r.size();
}
