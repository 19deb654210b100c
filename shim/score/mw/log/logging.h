#pragma once
#include "score/mw/log/log_stream.h"
#include "score/mw/log/log_types.h"
#include <string_view>
namespace score::mw::log
{
#define VSHIM_LOG(N) inline LogStream N() noexcept { return {}; } inline LogStream N(std::string_view) noexcept { return {}; }
VSHIM_LOG(LogFatal) VSHIM_LOG(LogError) VSHIM_LOG(LogWarn) VSHIM_LOG(LogInfo) VSHIM_LOG(LogDebug) VSHIM_LOG(LogVerbose)
#undef VSHIM_LOG
class Logger
{
  public:
    explicit Logger(std::string_view) {}
    LogStream LogFatal() const { return {}; } LogStream LogError() const { return {}; } LogStream LogWarn() const { return {}; }
    LogStream LogInfo() const { return {}; } LogStream LogDebug() const { return {}; } LogStream LogVerbose() const { return {}; }
    bool IsLogEnabled(LogLevel) const { return true; }
};
inline Logger& CreateLogger(std::string_view c, std::string_view = {}) { static Logger l{c}; return l; }
}  // namespace score::mw::log
