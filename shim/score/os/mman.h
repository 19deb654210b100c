#pragma once
#include "score/os/fcntl.h"
#include "score/os/unistd.h"
#include <sys/mman.h>
namespace score::os
{
class Mman : public ObjectSeam<Mman>
{
  public:
    enum class Protection : std::int32_t { kNone = PROT_NONE, kRead = PROT_READ, kWrite = PROT_WRITE, kExec = PROT_EXEC };
    enum class Map : std::int32_t { kShared = MAP_SHARED, kPrivate = MAP_PRIVATE, kFixed = MAP_FIXED };
    enum class PosixTypedMem : std::int32_t { kAllocate = 1, kAllocateContig = 2, kMapAllocatable = 4 };
    VSHIM_FBITS(Protection)
    VSHIM_FBITS(Map)
    virtual ~Mman() = default;
    static Mman& real() { static Mman m; return m; }
    virtual score::cpp::expected<void*, Error> mmap(void* a, size_t l, Protection p, Map f, int fd, off_t o) const noexcept { void* r = MAP_FAILED; errno = ENOSYS; if (r == MAP_FAILED) return score::cpp::make_unexpected(Error::createFromErrno()); return r; }
    virtual score::cpp::expected_blank<Error> munmap(void* a, size_t l) const noexcept { VB(::score::os::refuse(a, l)) }
    virtual score::cpp::expected<std::int32_t, Error> shm_open(const char* p, Fcntl::Open f, Stat::Mode m) const noexcept { VR(std::int32_t, ::score::os::refuse(p, static_cast<int>(f), static_cast<mode_t>(m))) }
    virtual score::cpp::expected_blank<Error> shm_unlink(const char* p) const noexcept { VB(::score::os::refuse(p)) }
};
}  // namespace score::os
