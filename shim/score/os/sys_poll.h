#pragma once
#include "score/os/errno.h"
#include "score/os/unistd.h"
#include <poll.h>
namespace score::os
{
class SysPoll : public ObjectSeam<SysPoll>
{
  public:
    virtual ~SysPoll() = default;
    static SysPoll& real() { static SysPoll s; return s; }
    static score::cpp::pmr::unique_ptr<SysPoll> Default(score::cpp::pmr::memory_resource* r);
    virtual score::cpp::expected<std::int32_t, Error> poll(pollfd* f, nfds_t n, std::int32_t t) const noexcept { VR(std::int32_t, ::score::os::refuse(f, n, t)) }
};
struct SysPollForward final : SysPoll { score::cpp::expected<std::int32_t, Error> poll(pollfd* f, nfds_t n, std::int32_t t) const noexcept override { return instance().poll(f, n, t); } };
inline score::cpp::pmr::unique_ptr<SysPoll> SysPoll::Default(score::cpp::pmr::memory_resource* r) { return score::cpp::pmr::make_unique<SysPollForward>(r); }
}  // namespace score::os
