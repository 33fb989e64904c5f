// Builds a symbolic expression from a postfix program and evaluates it. Lines: "P text", "A other\x1ftext" (parse again), "L k other\x1ftext" (one lexer, reset after k tokens),
// "i n", "f x", "+ - * / %", "c" ceil, "l" floor, "a" abs.
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include "mllm/compile/symbolic_expr/Eval.hpp"
#include "mllm/compile/symbolic_expr/Parser.hpp"
using namespace mllm;
extern "C" int c19_run(const char* prog, const char* names, const float* vals, int n_dicts, int n_vars, float* out, int* as_int, const int* want_int, char* text, int cap) {
  std::vector<SymExpr> st;
  std::vector<std::pair<SymExpr, std::string>> parts;
  std::stringstream ss(prog);
  std::string line;
  while (std::getline(ss, line)) {
    char k = line[0];
    std::string r = line.size() > 2 ? line.substr(2) : "";
    if (k == 'P') st.emplace_back(r);
    else if (k == 'A') {
      auto p = r.find('\x1f');
      SymExpr e(r.substr(0, p));
      e.parse(r.substr(p + 1));
      st.push_back(e);
    } else if (k == 'L') {
      auto q = r.find(' ');
      int n = std::stoi(r.substr(0, q));
      r = r.substr(q + 1);
      auto p = r.find('\x1f');
      SymbolExprLexer lx(r.substr(0, p));
      for (int i = 0; i < n; ++i) lx.getNextToken();
      lx.resetWithNewString(r.substr(p + 1));
      SymbolExprParser ps(&lx);
      st.emplace_back(ps.parse());
    } else if (k == 'i') st.emplace_back((int32_t)std::stol(r));
    else if (k == 'f') st.emplace_back(std::stof(r));
    else if (k == 'c') st.back() = st.back().ceil();
    else if (k == 'l') st.back() = st.back().floor();
    else if (k == 'a') st.back() = st.back().abs();
    else {
      SymExpr b = st.back();
      st.pop_back();
      SymExpr a = st.back();
      if (parts.size() < 16) parts.push_back({a, a.str()}), parts.push_back({b, b.str()});
      st.pop_back();
      st.push_back(k == '+' ? a + b : k == '-' ? a - b : k == '*' ? a * b : k == '/' ? a / b : a % b);
    }
  }
  std::vector<std::string> nm;
  std::stringstream ns(names);
  while (std::getline(ns, line)) nm.push_back(line);
  SymExpr e = st.back();
  SymExpr back(e.str());
  for (int d = 0; d < n_dicts; ++d) {
    SymExprDict dict;
    for (int i = 0; i < n_vars; ++i) dict[nm[i]] = vals[d * n_vars + i];
    out[d * 2] = e.eval(dict);
    if (want_int[d]) as_int[d] = e.evalAsInt(dict);
    out[d * 2 + 1] = back.eval(dict);
  }
  std::string s = e.str();
  for (auto& p : parts)
    if (p.first.str() != p.second) return -1;
  strncpy(text, s.c_str(), cap - 1);
  return (int)st.size() * 4 + (back.isStatic() ? 2 : 0) + (e.isStatic() ? 1 : 0);
}
