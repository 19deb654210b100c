#pragma once
#include "score/expected.hpp"
#include <cerrno>
#include <cstdint>
#include <ostream>
#include <string>
#include <cstring>
#include "score/mw/log/log_stream.h"
namespace score::os
{
class Error
{
  public:
    enum class Code : std::int32_t { kUnexpected = -1, kUnspecified = 0,
        kOperationNotPermitted = EPERM, kNoSuchFileOrDirectory = ENOENT, kCallWasInterrupted = EINTR, kOperationWasInterruptedBySignal = EINTR, kInputOutput = EIO, kBadFileDescriptor = EBADF, kResourceTemporarilyUnavailable = EAGAIN, kNotEnoughSpace = ENOMEM, kPermissionDenied = EACCES,
        kDeviceOrResourceBusy = EBUSY, kObjectExists = EEXIST, kInvalidArgument = EINVAL, kTooManyOpenFiles = EMFILE, kNoSpaceOnDevice = ENOSPC, kBrokenPipe = EPIPE, kOperationTimedOut = ETIMEDOUT, kNoSuchProcess = ESRCH, kDisconnected = ENOTCONN, kNotSupported = ENOTSUP, kWouldBlock = EWOULDBLOCK == EAGAIN ? 10011 : EWOULDBLOCK };
    static Error createFromErrno() noexcept { return Error{errno}; }
    static Error createFromErrno(std::int32_t e) noexcept { return Error{e}; }
    static Error createFromErrnoFlockSpecific(std::int32_t e) noexcept { return Error{e}; }
    static Error createUnspecifiedError() noexcept { return Error{0}; }
    std::int32_t GetOsDependentErrorCode() const noexcept { return e_; }
    std::string ToString() const { return std::strerror(e_); }
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.e_ == b.e_; }
    friend bool operator!=(const Error& a, const Error& b) noexcept { return a.e_ != b.e_; }
    friend bool operator==(const Error& a, const Code& c) noexcept { return a.e_ == static_cast<std::int32_t>(c); }
    friend bool operator!=(const Error& a, const Code& c) noexcept { return !(a == c); }
    friend std::ostream& operator<<(std::ostream& o, const Error& e) { return o << e.ToString(); }
    friend score::mw::log::LogStream& operator<<(score::mw::log::LogStream& o, const Error&) { return o; }
  private:
    explicit Error(std::int32_t e) : e_{e} {}
    std::int32_t e_;
};
}  // namespace score::os
