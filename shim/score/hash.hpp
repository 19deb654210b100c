#pragma once
#include <cstddef>
#include <cstdint>
namespace score::cpp
{
inline std::uint64_t hash_bytes_fnv(const void* p, std::size_t n) noexcept { auto* b = static_cast<const unsigned char*>(p); std::uint64_t h = 14695981039346656037ULL; for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; } return h; }
inline std::size_t hash_bytes(const void* p, std::size_t n) noexcept { return static_cast<std::size_t>(hash_bytes_fnv(p, n)); }
}  // namespace score::cpp
