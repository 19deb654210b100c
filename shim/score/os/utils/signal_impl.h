#pragma once
#include "score/os/errno.h"
#include "score/memory.hpp"
#include <csignal>
namespace score::os
{
class Signal
{
  public:
    virtual ~Signal() = default;
    virtual score::cpp::expected<std::int32_t, Error> SigEmptySet(sigset_t& s) const noexcept { sigemptyset(&s); return 0; }
    virtual score::cpp::expected<std::int32_t, Error> AddTerminationSignal(sigset_t& s) const noexcept { sigaddset(&s, SIGTERM); return 0; }
    virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t, const sigset_t&) const noexcept { return 0; }
    virtual score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t, const sigset_t&, sigset_t&) const noexcept { return 0; }
};
class SignalImpl : public Signal {};
}  // namespace score::os
