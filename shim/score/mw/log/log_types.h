#pragma once
#include <cstdint>
#include <string>
#include <string_view>
namespace score::mw::log
{
template <class T> struct LogHexT { T value; explicit constexpr LogHexT(T v) : value(v) {} };
using LogHex8 = LogHexT<std::uint8_t>; using LogHex16 = LogHexT<std::uint16_t>; using LogHex32 = LogHexT<std::uint32_t>; using LogHex64 = LogHexT<std::uint64_t>;
using LogBin8 = LogHexT<std::uint8_t>;
class LogString { public: LogString(std::string_view) {} LogString(const char*) {} };
enum class LogLevel : std::uint8_t { kOff = 0, kFatal, kError, kWarn, kInfo, kDebug, kVerbose };
}  // namespace score::mw::log
