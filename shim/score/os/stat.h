#pragma once
#include "score/os/errno.h"
#include "score/os/ObjectSeam.h"
#include "score/os/vbits.h"
#include <sys/stat.h>
#include <sys/types.h>
namespace score::os
{
struct StatBuffer { std::uint64_t st_dev{}; std::uint64_t st_ino{}; std::int64_t st_size{}; std::uint32_t st_mode{}; std::int64_t st_uid{}; std::int64_t st_gid{}; };
class Stat : public ObjectSeam<Stat>
{
  public:
    enum class Mode : std::uint32_t { kNone = 0, kUnknown = 0xFFFF, kReadUser = S_IRUSR, kWriteUser = S_IWUSR, kExecUser = S_IXUSR, kReadWriteExecUser = S_IRWXU, kReadGroup = S_IRGRP, kWriteGroup = S_IWGRP, kExecGroup = S_IXGRP, kReadWriteExecGroup = S_IRWXG, kReadOthers = S_IROTH, kWriteOthers = S_IWOTH, kExecOthers = S_IXOTH, kReadWriteExecOthers = S_IRWXO };
    VSHIM_FBITS(Mode)
    virtual ~Stat() = default;
    static Stat& real() { static Stat s; return s; }
    static score::cpp::pmr::unique_ptr<Stat> Default(score::cpp::pmr::memory_resource* r) { return score::cpp::pmr::make_unique<Stat>(r); }
    virtual score::cpp::expected_blank<Error> stat(const char* f, StatBuffer& b, bool = true) const noexcept { struct ::stat s{}; if (::score::os::refuse(f, &s) != 0) return score::cpp::make_unexpected(Error::createFromErrno()); fill(b, s); return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> fstat(int fd, StatBuffer& b) const noexcept { struct ::stat s{}; if (::score::os::refuse(fd, &s) != 0) return score::cpp::make_unexpected(Error::createFromErrno()); fill(b, s); return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> mkdir(const char* f, Mode m) const noexcept { if (::score::os::refuse(f, static_cast<mode_t>(m)) != 0) return score::cpp::make_unexpected(Error::createFromErrno()); return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> chmod(const char* f, Mode m) const noexcept { if (::score::os::refuse(f, static_cast<mode_t>(m)) != 0) return score::cpp::make_unexpected(Error::createFromErrno()); return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> fchmod(int fd, Mode m) const noexcept { if (::score::os::refuse(fd, static_cast<mode_t>(m)) != 0) return score::cpp::make_unexpected(Error::createFromErrno()); return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> umask(Mode) const noexcept { return score::cpp::blank{}; }
  private:
    static void fill(StatBuffer& b, const struct ::stat& s) { b.st_dev = s.st_dev; b.st_ino = s.st_ino; b.st_size = s.st_size; b.st_mode = s.st_mode; b.st_uid = s.st_uid; b.st_gid = s.st_gid; }
};
inline std::uint32_t ModeToInteger(const Stat::Mode m) { return static_cast<std::uint32_t>(m); }
inline Stat::Mode IntegerToMode(std::uint32_t m) { return static_cast<Stat::Mode>(m); }
}  // namespace score::os
