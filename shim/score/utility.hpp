#pragma once
#include <tuple>
#include <type_traits>
#include <utility>
#include <cstddef>
namespace score::cpp
{
using std::ignore;
template <class E> constexpr std::underlying_type_t<E> to_underlying(E e) noexcept { return static_cast<std::underlying_type_t<E>>(e); }
template <class C> constexpr auto at(C& c, std::size_t i) -> decltype(c[0])& { return c[i]; }
}  // namespace score::cpp
