// Stand-in for NVIDIA stdexec (not installed here).  Just the names mllm uses.
// A "sender" is a type-erased thunk; connecting/starting it means calling it.
#pragma once
#include <exception>
#include <functional>
#include <optional>
#include <tuple>
#include <utility>
#include <type_traits>
namespace stdexec {
struct set_value_t {};
struct set_error_t {};
struct set_stopped_t {};
template <class... Ts> struct completion_signatures {};
namespace shim {
struct any_sender {
  std::function<void()> run;
  any_sender() = default;
  template <class F, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, any_sender>>> explicit any_sender(F&& f) : run(std::forward<F>(f)) {}
};
template <class F> struct then_closure { F f; };
template <class F> any_sender operator|(any_sender s, then_closure<F> c) {
  return any_sender([s = std::move(s), f = std::move(c.f)]() mutable { if (s.run) s.run(); f(); });
}
}  // namespace shim
template <class T> concept sender = std::is_same_v<std::remove_cvref_t<T>, shim::any_sender>;
template <class Sched> shim::any_sender schedule(Sched&&) { return {}; }
template <class F> shim::then_closure<std::decay_t<F>> then(F&& f) { return {std::forward<F>(f)}; }
template <class F> shim::any_sender then(shim::any_sender s, F&& f) { return std::move(s) | then(std::forward<F>(f)); }
template <class... S> shim::any_sender when_all(S&&... s) {
  return shim::any_sender([t = std::make_tuple(std::forward<S>(s)...)]() mutable { std::apply([](auto&... x) { ((x.run ? x.run() : void()), ...); }, t); });
}
inline std::optional<std::tuple<>> sync_wait(shim::any_sender s) { if (s.run) s.run(); return std::tuple<>{}; }
template <class... A> auto sync_wait_with_variant(A&&...) { return 0; }
}  // namespace stdexec
