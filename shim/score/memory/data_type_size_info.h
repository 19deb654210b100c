#pragma once
#include "score/assert.hpp"
#include <cstddef>
namespace score::memory
{
class DataTypeSizeInfo
{
  public:
    constexpr DataTypeSizeInfo() noexcept = default;
    constexpr DataTypeSizeInfo(std::size_t size, std::size_t alignment) : size_{size}, alignment_{alignment} {}
    constexpr std::size_t Size() const noexcept { return size_; }
    constexpr std::size_t Alignment() const noexcept { return alignment_; }
    friend constexpr bool operator==(const DataTypeSizeInfo& a, const DataTypeSizeInfo& b) noexcept { return a.size_ == b.size_ && a.alignment_ == b.alignment_; }
    friend constexpr bool operator!=(const DataTypeSizeInfo& a, const DataTypeSizeInfo& b) noexcept { return !(a == b); }
  private:
    std::size_t size_{0U}; std::size_t alignment_{0U};
};
template <class T> constexpr DataTypeSizeInfo CreateDataTypeSizeInfoFromType() { return {sizeof(T), alignof(T)}; }
}  // namespace score::memory
