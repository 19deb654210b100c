#pragma once
#include <functional>
namespace score::cpp
{
struct blank {};
constexpr bool operator==(const blank&, const blank&) { return true; }
constexpr bool operator!=(const blank&, const blank&) { return false; }
constexpr bool operator<(const blank&, const blank&) { return false; }
}  // namespace score::cpp
template <> struct std::hash<score::cpp::blank> { std::size_t operator()(const score::cpp::blank&) const noexcept { return 0; } };
