#pragma once
#include <string>
#include <vector>
#include <string_view>
namespace score::safecpp
{
class zstring_view : public std::string_view
{
  public:
    constexpr zstring_view() noexcept : std::string_view("") {}
    constexpr zstring_view(const char* s) : std::string_view(s) {}
    zstring_view(const std::string& s) : std::string_view(s) {}
    constexpr const char* c_str() const noexcept { return data(); }
    constexpr explicit zstring_view(const char* s, std::size_t n) : std::string_view(s, n) {}
};
namespace literals { constexpr zstring_view operator""_zsv(const char* s, std::size_t n) { return zstring_view{s, n}; } inline namespace zstring_view_literals { using literals::operator""_zsv; } }
}  // namespace score::safecpp
