#pragma once
#include <utility>
#include <type_traits>
namespace score::cpp
{
template <class... F> struct overload_t : F... { using F::operator()...; };
template <class... F> overload_t(F...) -> overload_t<F...>;
template <class... F> constexpr auto overload(F&&... f) { return overload_t<std::decay_t<F>...>{std::forward<F>(f)...}; }
}  // namespace score::cpp
