#pragma once
#include <fmt/core.h>
#include <fmt/format.h>
#if FMT_VERSION < 110000
#include <cstdio>
namespace fmt {
template<class... A>
void println(format_string<A...> f, A&&... a) { std::puts(fmt::format(f, std::forward<A>(a)...).c_str()); }
}
#endif
