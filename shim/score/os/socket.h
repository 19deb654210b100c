#pragma once
#include "score/os/errno.h"
#include "score/os/unistd.h"
#include "score/os/vbits.h"
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/un.h>
namespace score::os
{
class Socket : public ObjectSeam<Socket>
{
  public:
    enum class Domain : std::int32_t { kUnix = AF_UNIX, kIPv4 = AF_INET, kIPv6 = AF_INET6 };
    enum class MessageFlag : std::int32_t { kNone = 0, kWaitAll = MSG_WAITALL, kNoSignal = MSG_NOSIGNAL, kDontRoute = MSG_DONTROUTE, kPeek = MSG_PEEK, kOutOfBand = MSG_OOB, kWaitForOne = MSG_WAITFORONE };
    VSHIM_FBITS(MessageFlag)
    virtual ~Socket() = default;
    static Socket& real() { static Socket s; return s; }
    static score::cpp::pmr::unique_ptr<Socket> Default(score::cpp::pmr::memory_resource* r);
    virtual score::cpp::expected<std::int32_t, Error> socket(Domain d, std::int32_t t, std::int32_t p) const noexcept { VR(std::int32_t, ::score::os::refuse(static_cast<int>(d), t, p)) }
    virtual score::cpp::expected_blank<Error> setsockopt(int fd, int l, int n, const void* v, socklen_t s) const noexcept { VB(::score::os::refuse(fd, l, n, v, s)) }
    virtual score::cpp::expected_blank<Error> getsockopt(int fd, int l, int n, void* v, socklen_t* s) const noexcept { VB(::score::os::refuse(fd, l, n, v, s)) }
    virtual score::cpp::expected_blank<Error> bind(int fd, const sockaddr* a, socklen_t s) const noexcept { VB(::score::os::refuse(fd, a, s)) }
    virtual score::cpp::expected_blank<Error> listen(int fd, int b) const noexcept { VB(::score::os::refuse(fd, b)) }
    virtual score::cpp::expected<std::int32_t, Error> accept(int fd, sockaddr* a, socklen_t* s) const noexcept { VR(std::int32_t, ::score::os::refuse(fd, a, s)) }
    virtual score::cpp::expected_blank<Error> connect(int fd, const sockaddr* a, socklen_t s) const noexcept { VB(::score::os::refuse(fd, a, s)) }
    virtual score::cpp::expected<ssize_t, Error> sendmsg(int fd, const msghdr* m, MessageFlag f) const noexcept { VR(ssize_t, ::score::os::refuse(fd, m, static_cast<int>(f))) }
    virtual score::cpp::expected<ssize_t, Error> recvmsg(int fd, msghdr* m, MessageFlag f) const noexcept { VR(ssize_t, ::score::os::refuse(fd, m, static_cast<int>(f))) }
    virtual score::cpp::expected<ssize_t, Error> sendto(int fd, const void* b, size_t n, MessageFlag f, const sockaddr* a, socklen_t s) const noexcept { VR(ssize_t, ::score::os::refuse(fd, b, n, static_cast<int>(f), a, s)) }
    virtual score::cpp::expected<ssize_t, Error> recv(int fd, void* b, size_t n, MessageFlag f) const noexcept { VR(ssize_t, ::score::os::refuse(fd, b, n, static_cast<int>(f))) }
};
struct SocketForward final : Socket
{
    score::cpp::expected<std::int32_t, Error> socket(Domain d, std::int32_t t, std::int32_t p) const noexcept override { return instance().socket(d, t, p); }
    score::cpp::expected_blank<Error> setsockopt(int fd, int l, int n, const void* v, socklen_t s) const noexcept override { return instance().setsockopt(fd, l, n, v, s); }
    score::cpp::expected_blank<Error> getsockopt(int fd, int l, int n, void* v, socklen_t* s) const noexcept override { return instance().getsockopt(fd, l, n, v, s); }
    score::cpp::expected_blank<Error> bind(int fd, const sockaddr* a, socklen_t s) const noexcept override { return instance().bind(fd, a, s); }
    score::cpp::expected_blank<Error> listen(int fd, int b) const noexcept override { return instance().listen(fd, b); }
    score::cpp::expected<std::int32_t, Error> accept(int fd, sockaddr* a, socklen_t* s) const noexcept override { return instance().accept(fd, a, s); }
    score::cpp::expected_blank<Error> connect(int fd, const sockaddr* a, socklen_t s) const noexcept override { return instance().connect(fd, a, s); }
    score::cpp::expected<ssize_t, Error> sendmsg(int fd, const msghdr* m, MessageFlag f) const noexcept override { return instance().sendmsg(fd, m, f); }
    score::cpp::expected<ssize_t, Error> recvmsg(int fd, msghdr* m, MessageFlag f) const noexcept override { return instance().recvmsg(fd, m, f); }
};
inline score::cpp::pmr::unique_ptr<Socket> Socket::Default(score::cpp::pmr::memory_resource* r) { return score::cpp::pmr::make_unique<SocketForward>(r); }
}  // namespace score::os
