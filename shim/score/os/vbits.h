#pragma once
#include <type_traits>
#define VSHIM_BITS(E) \
    constexpr E operator|(E a, E b) noexcept { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) | static_cast<std::underlying_type_t<E>>(b)); } \
    constexpr E operator&(E a, E b) noexcept { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) & static_cast<std::underlying_type_t<E>>(b)); } \
    constexpr E& operator|=(E& a, E b) noexcept { a = a | b; return a; }
#define VSHIM_FBITS(E) \
    friend constexpr E operator|(E a, E b) noexcept { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) | static_cast<std::underlying_type_t<E>>(b)); } \
    friend constexpr E operator&(E a, E b) noexcept { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) & static_cast<std::underlying_type_t<E>>(b)); } \
    friend constexpr E& operator|=(E& a, E b) noexcept { a = a | b; return a; }
