// The small part of the highway library's interface that the kernels use, on
// plain loops over 32-byte vectors: highway itself is not installed here.
#pragma once
#include <cstddef>
#include <cstdint>
#define HWY_RESTRICT __restrict__
#define HWY_INLINE inline
#define HWY_NOINLINE __attribute__((noinline))
#define HWY_MAYBE_UNUSED __attribute__((unused))
#define HWY_DLLEXPORT
#define HWY_ATTR
#define HWY_BEFORE_NAMESPACE() static_assert(true, "")
#define HWY_AFTER_NAMESPACE() static_assert(true, "")
#define HWY_NAMESPACE N_LOOPS
#define HWY_ONCE 1
#define HWY_EXPORT(f) static_assert(true, "")
#define HWY_DYNAMIC_DISPATCH(f) N_LOOPS::f
#define HWY_STATIC_DISPATCH(f) N_LOOPS::f
#define HWY_IF_F32_D(D) std::enable_if_t<std::is_same_v<hwy::N_LOOPS::TFromD<D>, float>>* = nullptr
