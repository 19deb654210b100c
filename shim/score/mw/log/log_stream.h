#pragma once
#include "score/mw/log/log_types.h"
#include <string>
#include <string_view>
#include <type_traits>
namespace score::mw::log
{
// Logging is not observable for any property: all log output is dropped.
class LogStream
{
  public:
    template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> LogStream& operator<<(T) noexcept { return *this; }
    LogStream& operator<<(const char*) noexcept { return *this; }
    LogStream& operator<<(const void*) noexcept { return *this; }
    LogStream& operator<<(const std::string&) noexcept { return *this; }
    LogStream& operator<<(std::string_view) noexcept { return *this; }
    template <class T> LogStream& operator<<(LogHexT<T>) noexcept { return *this; }
    LogStream& operator<<(const LogString&) noexcept { return *this; }
    void Flush() noexcept {}
    template <class T> friend LogStream& operator<<(LogStream&& s, const T& t) { return static_cast<LogStream&>(s) << t; }
};
}  // namespace score::mw::log
