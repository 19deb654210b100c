#pragma once
#include "score/os/errno.h"
#include "score/os/ObjectSeam.h"
#include <unistd.h>
namespace score::os
{
class Unistd : public ObjectSeam<Unistd>
{
  public:
    virtual ~Unistd() = default;
    static Unistd& real() { static Unistd u; return u; }
    static std::unique_ptr<Unistd> Default();
    static score::cpp::pmr::unique_ptr<Unistd> Default(score::cpp::pmr::memory_resource* r);
#define VR(T, e) auto r_ = (e); if (r_ < 0) return score::cpp::make_unexpected(Error::createFromErrno()); return static_cast<T>(r_);
#define VB(e) if ((e) < 0) return score::cpp::make_unexpected(Error::createFromErrno()); return score::cpp::blank{};
    virtual score::cpp::expected_blank<Error> close(int fd) const noexcept { VB(::score::os::refuse(fd)) }
    virtual score::cpp::expected_blank<Error> unlink(const char* p) const noexcept { VB(::score::os::refuse(p)) }
    virtual score::cpp::expected_blank<Error> access(const char* p, int m) const noexcept { VB(::score::os::refuse(p, m)) }
    virtual score::cpp::expected_blank<Error> pipe(int p[2]) const noexcept { VB(::score::os::refuse(p)) }
    virtual score::cpp::expected_blank<Error> ftruncate(int fd, off_t l) const noexcept { VB(::score::os::refuse(fd, l)) }
    virtual score::cpp::expected<ssize_t, Error> read(int fd, void* b, size_t n) const noexcept { VR(ssize_t, ::score::os::refuse(fd, b, n)) }
    virtual score::cpp::expected<ssize_t, Error> write(int fd, const void* b, size_t n) const noexcept { VR(ssize_t, ::score::os::refuse(fd, b, n)) }
    virtual pid_t getpid() const noexcept { return ::getpid(); }
    virtual uid_t getuid() const noexcept { return ::getuid(); }
    virtual gid_t getgid() const noexcept { return ::getgid(); }
    virtual std::int64_t gettid() const noexcept { return ::gettid(); }
    virtual score::cpp::expected_blank<Error> setuid(uid_t u) const noexcept { VB(::score::os::refuse(u)) }
};
struct UnistdForward final : Unistd
{
    score::cpp::expected_blank<Error> close(int fd) const noexcept override { return instance().close(fd); }
    score::cpp::expected_blank<Error> unlink(const char* p) const noexcept override { return instance().unlink(p); }
    score::cpp::expected_blank<Error> access(const char* p, int m) const noexcept override { return instance().access(p, m); }
    score::cpp::expected_blank<Error> pipe(int p[2]) const noexcept override { return instance().pipe(p); }
    score::cpp::expected<ssize_t, Error> read(int fd, void* b, size_t n) const noexcept override { return instance().read(fd, b, n); }
    score::cpp::expected<ssize_t, Error> write(int fd, const void* b, size_t n) const noexcept override { return instance().write(fd, b, n); }
    pid_t getpid() const noexcept override { return instance().getpid(); }
    uid_t getuid() const noexcept override { return instance().getuid(); }
    gid_t getgid() const noexcept override { return instance().getgid(); }
};
inline std::unique_ptr<Unistd> Unistd::Default() { return std::make_unique<UnistdForward>(); }
inline score::cpp::pmr::unique_ptr<Unistd> Unistd::Default(score::cpp::pmr::memory_resource* r) { return score::cpp::pmr::make_unique<UnistdForward>(r); }
namespace internal { using UnistdImpl = UnistdForward; }
}  // namespace score::os
