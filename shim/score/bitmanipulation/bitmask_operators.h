#pragma once
#include <type_traits>
namespace score
{
template <class E> struct enable_bitmask_operators : std::false_type {};
namespace vbits { template <class E> using EN = std::enable_if_t<enable_bitmask_operators<E>::value, E>; }
template <class E> constexpr vbits::EN<E> operator|(E a, E b) noexcept { using U = std::underlying_type_t<E>; return static_cast<E>(static_cast<U>(a) | static_cast<U>(b)); }
template <class E> constexpr vbits::EN<E> operator&(E a, E b) noexcept { using U = std::underlying_type_t<E>; return static_cast<E>(static_cast<U>(a) & static_cast<U>(b)); }
}  // namespace score
