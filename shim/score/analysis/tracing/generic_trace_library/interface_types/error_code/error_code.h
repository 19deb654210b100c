#ifndef VSHIM_TRACE_ERROR_CODE_H
#define VSHIM_TRACE_ERROR_CODE_H
#include "score/result/result.h"
#include <string_view>
namespace score::analysis::tracing
{
enum class ErrorCode : score::result::ErrorCode
{
    kNoErrorRecoverable = 0,
    kNotEnoughMemoryRecoverable,
    kRingBufferFullRecoverable,
    kMessageSendFailedRecoverable,
    kCallbackAlreadyRegisteredRecoverable,
    kLastRecoverable = 100,
    kInvalidArgumentFatal,
    kInvalidAppInstanceIdFatal,
    kDaemonConnectionFailedFatal,
    kDaemonNotConnectedFatal,
    kTerminalFatal,
};
inline bool IsErrorRecoverable(ErrorCode c) { return static_cast<int>(c) <= static_cast<int>(ErrorCode::kLastRecoverable); }
class ErrorDomain final : public score::result::ErrorDomain
{
  public:
    std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "trace error"; }
};
inline score::result::Error MakeError(ErrorCode c, std::string_view m = "") noexcept
{
    static constexpr ErrorDomain d{};
    return score::result::Error{static_cast<score::result::ErrorCode>(c), d, m};
}
}  // namespace score::analysis::tracing
#endif
