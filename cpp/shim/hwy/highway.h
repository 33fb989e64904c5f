#pragma once
#include "base.h"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <type_traits>
namespace hwy { namespace N_LOOPS {
template<class T> struct ScalableTag { using type = T; };
template<class D> using TFromD = typename std::decay_t<D>::type;
template<class T> struct VecOf { static constexpr size_t N = 32 / sizeof(T); using type = T; T v[N]; };
template<class D> using Vec = VecOf<TFromD<D>>;
template<class T, class D> using Rebind = ScalableTag<T>;
template<class D> size_t Lanes(D) { return 32 / sizeof(TFromD<D>); }
template<class T> struct MaskOf { bool v[32 / sizeof(T)]; };
template<class D> Vec<D> Set(D, TFromD<D> x) { Vec<D> r; for (auto& e : r.v) e = x; return r; }
template<class D> Vec<D> Zero(D d) { return Set(d, TFromD<D>(0)); }
template<class D> Vec<D> Iota(D, double from) { Vec<D> r; for (size_t i = 0; i < r.N; ++i) r.v[i] = (TFromD<D>)(from + i); return r; }
template<class D> Vec<D> LoadU(D, const TFromD<D>* p) { Vec<D> r; std::memcpy(r.v, p, sizeof r.v); return r; }
template<class D> Vec<D> Load(D d, const TFromD<D>* p) { if ((uintptr_t)p % 32) std::abort(); return LoadU(d, p); }  // an aligned load faults
template<class D> Vec<D> LoadN(D d, const TFromD<D>* p, size_t n) { auto r = Zero(d); for (size_t i = 0; i < n && i < r.N; ++i) r.v[i] = p[i]; return r; }
template<class D> void StoreU(const Vec<D>& a, D, TFromD<D>* p) { std::memcpy(p, a.v, sizeof a.v); }
template<class D> void Store(const Vec<D>& a, D d, TFromD<D>* p) { if ((uintptr_t)p % 32) std::abort(); StoreU(a, d, p); }
template<class D> void StoreN(const Vec<D>& a, D, TFromD<D>* p, size_t n) { for (size_t i = 0; i < n && i < a.N; ++i) p[i] = a.v[i]; }
#define MAP2(NAME, EXPR) template<class T> VecOf<T> NAME(const VecOf<T>& a, const VecOf<T>& b) { VecOf<T> r; for (size_t i = 0; i < r.N; ++i) { T x = a.v[i], y = b.v[i]; r.v[i] = (T)(EXPR); } return r; }
template<class T> T wrap_add(T x, T y) { if constexpr (std::is_integral_v<T>) return (T)((uint64_t)x + (uint64_t)y); else return x + y; }
template<class T> T wrap_sub(T x, T y) { if constexpr (std::is_integral_v<T>) return (T)((uint64_t)x - (uint64_t)y); else return x - y; }
template<class T> T wrap_mul(T x, T y) { if constexpr (std::is_integral_v<T>) return (T)((uint64_t)x * (uint64_t)y); else return x * y; }
template<class T> T safe_div(T x, T y) { if constexpr (std::is_integral_v<T>) return y == 0 ? T(0) : (y == T(-1) ? wrap_sub(T(0), x) : (T)(x / y)); else return x / y; }
MAP2(Add, wrap_add(x, y)) MAP2(Sub, wrap_sub(x, y)) MAP2(Mul, wrap_mul(x, y)) MAP2(Div, safe_div(x, y)) MAP2(Max, x < y ? y : x) MAP2(Min, y < x ? y : x)
#undef MAP2
template<class T> VecOf<T> Neg(const VecOf<T>& a) { VecOf<T> r; for (size_t i = 0; i < r.N; ++i) r.v[i] = -a.v[i]; return r; }
template<class T> VecOf<T> Floor(const VecOf<T>& a) { VecOf<T> r; for (size_t i = 0; i < r.N; ++i) r.v[i] = std::floor(a.v[i]); return r; }
template<class T> VecOf<T> MulAdd(const VecOf<T>& a, const VecOf<T>& b, const VecOf<T>& c) { VecOf<T> r; for (size_t i = 0; i < r.N; ++i) r.v[i] = std::fma(a.v[i], b.v[i], c.v[i]); return r; }
template<class T> VecOf<T> Clamp(const VecOf<T>& v, const VecOf<T>& lo, const VecOf<T>& hi) { return Min(Max(lo, v), hi); }
template<class T> MaskOf<T> Gt(const VecOf<T>& a, const VecOf<T>& b) { MaskOf<T> r; for (size_t i = 0; i < a.N; ++i) r.v[i] = a.v[i] > b.v[i]; return r; }
template<class T> VecOf<T> IfThenElse(const MaskOf<T>& m, const VecOf<T>& a, const VecOf<T>& b) { VecOf<T> r; for (size_t i = 0; i < r.N; ++i) r.v[i] = m.v[i] ? a.v[i] : b.v[i]; return r; }
template<class D> TFromD<D> ReduceSum(D, const Vec<D>& a) { TFromD<D> s = 0; for (auto e : a.v) s = wrap_add(s, e); return s; }
template<class D> TFromD<D> ReduceMax(D, const Vec<D>& a) { TFromD<D> s = a.v[0]; for (auto e : a.v) s = s < e ? e : s; return s; }
template<class D> TFromD<D> ReduceMin(D, const Vec<D>& a) { TFromD<D> s = a.v[0]; for (auto e : a.v) s = e < s ? e : s; return s; }
template<class D, class T> Vec<D> ConvertTo(D, const VecOf<T>& a) { Vec<D> r; for (size_t i = 0; i < r.N; ++i) r.v[i] = (TFromD<D>)a.v[i]; return r; }
template<class D, class T> Vec<D> BitCast(D, const VecOf<T>& a) { Vec<D> r; std::memcpy(r.v, a.v, sizeof r.v); return r; }
template<int K, class T> VecOf<T> ShiftLeft(const VecOf<T>& a) { VecOf<T> r; for (size_t i = 0; i < r.N; ++i) r.v[i] = (T)((uint64_t)a.v[i] << K); return r; }
template<class D> Vec<D> Tanh(D, const Vec<D>& a) { Vec<D> r; for (size_t i = 0; i < r.N; ++i) r.v[i] = std::tanh(a.v[i]); return r; }
template<class D, class F> void Transform(D d, TFromD<D>* p, size_t n, const F& f) {
  for (size_t i = 0; i < n; i += Lanes(d)) StoreN(f(d, LoadN(d, p + i, n - i)), d, p + i, n - i);
}
}}  // namespace hwy::N_LOOPS
