// Unix domain sockets, pipes and poll in memory, for the message passing engine. Every call is one atomic step and a
// scheduling point; descriptors are never used twice, so that a late use of a closed one is seen.
#ifndef VERIF_SOCKETS_H
#define VERIF_SOCKETS_H
#include "mc.h"
#include "score/os/socket.h"
#include "score/os/sys_poll.h"
#include "score/os/unistd.h"
#include <cstring>
#include <deque>

namespace sock
{
using score::os::Error;
template <class T> using R = score::cpp::expected<T, Error>;
using RB = score::cpp::expected_blank<Error>;
using Bytes = std::vector<std::uint8_t>;
inline auto err(int e) { return score::cpp::make_unexpected(Error::createFromErrno(e)); }
enum Kind { Fresh, Bound, Listening, Stream, PipeIn, PipeOut };
struct End { Kind kind{Fresh}; int proc{0}, peer_proc{0}; std::string name; std::shared_ptr<End> peer; std::deque<std::uint8_t> in; std::deque<std::shared_ptr<End>> backlog; bool closed{false}, peer_closed{false}, reset{false}; };
using P = std::shared_ptr<End>;

struct Kernel final : score::os::Socket, score::os::SysPoll, score::os::Unistd
{
    mutable std::map<int, P> fds; mutable int next{3}; mutable std::map<std::string, P> names;
    mutable int fail_accept{0}, fail_cred{0}, fail_send{0}, fail_bind{0}, fail_listen{0}, fail_socket{0}, fail_recv{0}; mutable bool points{false}, closing_race_ok{false}; mutable int dropped{0};
    // one per poll loop (identified by its pipe)
    struct Loop { int tid{-1}; bool waiting{false}; std::function<bool()> ready; }; mutable std::map<int, Loop> loops; mutable int pipes{0};
    Kernel() { score::os::ObjectSeam<Socket>::set_testing_instance(*this); score::os::ObjectSeam<SysPoll>::set_testing_instance(*this); score::os::ObjectSeam<Unistd>::set_testing_instance(*this); }
    ~Kernel() { score::os::ObjectSeam<Socket>::restore_instance(); score::os::ObjectSeam<SysPoll>::restore_instance(); score::os::ObjectSeam<Unistd>::restore_instance(); }
    void step(const char* w) const { mc::log(w); if (points) mc::point(w); mc::ghost(this); }
    P get(int fd) const { auto i = fds.find(fd); MC_CHECK(i != fds.end(), "a descriptor is used that is not open"); return i == fds.end() ? nullptr : i->second; }
    int put(P p) const { fds[next] = std::move(p); return next++; }
    std::size_t open_of(int proc) const { std::size_t n = 0; for (auto& f : fds) n += f.second->proc == proc; return n; }
    // Nothing is left to do: every poll loop waits for something that is not there.
    bool idle() const { if (int(loops.size()) < pipes) return false; for (auto& l : loops) if (!l.second.waiting || l.second.ready()) return false; return true; }
    void settle() const { mc::block_until([this] { return idle(); }, "engines become idle"); mc::ghost(this); }

    P connect_end(P c, const std::string& n) const
    {
        auto i = names.find(n); if (i == names.end() || i->second->kind != Listening) return nullptr;
        auto s = std::make_shared<End>(); s->kind = c->kind = Stream; s->proc = i->second->proc; s->peer_proc = c->proc; c->peer_proc = s->proc; s->peer = c; c->peer = s;
        i->second->backlog.push_back(s); return s;
    }
    void shut(End& e) const
    {
        e.closed = true;
        if (e.peer) { e.peer->peer_closed = true; if (!e.in.empty()) e.peer->reset = true; e.peer->peer.reset(); e.peer.reset(); }
        for (auto& b : e.backlog) shut(*b);
        if (!e.name.empty()) names.erase(e.name);
        e.in.clear(); e.backlog.clear();
    }
    static std::string name_of(const sockaddr* a, socklen_t s) { auto* u = reinterpret_cast<const sockaddr_un*>(a); MC_CHECK(a->sa_family == AF_UNIX && s == sizeof(sockaddr_un), "an address of another kind is used"); MC_CHECK(u->sun_path[0] == 0, "an address outside the abstract name space is used"); return std::string(u->sun_path + 1, sizeof(u->sun_path) - 1); }

    R<std::int32_t> socket(Domain d, std::int32_t t, std::int32_t p) const noexcept override
    {
        step("socket"); MC_CHECK(d == Domain::kUnix && t == SOCK_STREAM && p == 0, "a socket of another kind is made");
        if (fail_socket > 0) { --fail_socket; return err(EMFILE); }
        auto e = std::make_shared<End>(); e->proc = mc::cur_proc(); return put(e);
    }
    RB bind(int fd, const sockaddr* a, socklen_t s) const noexcept override
    {
        step("bind"); auto e = get(fd); if (!e) return err(EBADF);
        if (fail_bind > 0) { --fail_bind; return err(EADDRINUSE); }
        auto n = name_of(a, s); if (names.count(n)) return err(EADDRINUSE);
        e->kind = Bound; e->name = n; names[n] = e; return {};
    }
    RB listen(int fd, int b) const noexcept override
    {
        step("listen"); auto e = get(fd); if (!e) return err(EBADF);
        MC_CHECK(e->kind == Bound && b > 0, "listening without an address or backlog");
        if (fail_listen > 0) { --fail_listen; return err(EADDRINUSE); }
        e->kind = Listening; return {};
    }
    R<std::int32_t> accept(int fd, sockaddr*, socklen_t*) const noexcept override
    {
        step("accept"); auto e = get(fd); if (!e) return err(EBADF); if (e->kind != Listening) return err(EINVAL);
        MC_CHECK(!e->backlog.empty(), "accepting blocks the engine as nobody connects");
        if (e->backlog.empty()) return err(EAGAIN);
        auto s = e->backlog.front(); e->backlog.pop_front();
        if (fail_accept > 0) { --fail_accept; shut(*s); return err(ECONNABORTED); }
        s->proc = e->proc; return put(s);
    }
    RB connect(int fd, const sockaddr* a, socklen_t s) const noexcept override
    {
        step("connect"); auto e = get(fd); if (!e) return err(EBADF);
        return connect_end(e, name_of(a, s)) ? RB{} : RB{err(ECONNREFUSED)};
    }
    RB getsockopt(int fd, int l, int n, void* v, socklen_t* s) const noexcept override
    {
        step("getsockopt"); auto e = get(fd); if (!e) return err(EBADF);
        if (fail_cred > 0) { --fail_cred; return err(ENOPROTOOPT); }
        MC_CHECK(l == SOL_SOCKET && n == SO_PEERCRED && *s >= sizeof(ucred), "an unknown socket option is read");
        ucred c{100 + e->peer_proc, uid_t(200 + e->peer_proc), gid_t(300 + e->peer_proc)}; std::memcpy(v, &c, sizeof c); *s = sizeof c; return {};
    }
    R<ssize_t> sendmsg(int fd, const msghdr* m, MessageFlag f) const noexcept override
    {
        if (fd < 0) return err(EBADF);
        const bool was = fds.count(fd) != 0; step("sendmsg");
        if (was && !fds.count(fd)) { MC_CHECK(closing_race_ok, "a message is sent on a descriptor that another thread closed meanwhile (and that may be another connection's by now)"); return err(EBADF); }
        auto e = get(fd); if (!e) return err(EBADF); if (e->kind != Stream) return err(ENOTCONN);
        if (fail_send > 0) { --fail_send; ++dropped; return err(ENOBUFS); }
        MC_CHECK((static_cast<int>(f) & MSG_NOSIGNAL) != 0, "a send to a closed connection raises a signal that ends the process");
        if (e->peer_closed) return err(EPIPE);
        ssize_t n = 0; for (std::size_t i = 0; i < m->msg_iovlen; ++i) { auto* b = static_cast<std::uint8_t*>(m->msg_iov[i].iov_base); e->peer->in.insert(e->peer->in.end(), b, b + m->msg_iov[i].iov_len); n += ssize_t(m->msg_iov[i].iov_len); }
        return n;
    }
    R<ssize_t> recvmsg(int fd, msghdr* m, MessageFlag f) const noexcept override
    {
        step("recvmsg"); auto e = get(fd); if (!e) return err(EBADF); if (e->kind != Stream) return err(ENOTCONN);
        std::size_t want = 0; for (std::size_t i = 0; i < m->msg_iovlen; ++i) want += m->msg_iov[i].iov_len;
        const std::size_t least = (static_cast<int>(f) & MSG_WAITALL) ? want : std::min<std::size_t>(1, want);
        if (e->in.size() < least && !e->peer_closed)
        {
            Loop* l = nullptr; for (auto& x : loops) if (x.second.tid == mc::cur_tid()) l = &x.second;     // blocked in the middle of a message
            auto more = [e, least] { return e->in.size() >= least || e->peer_closed; };
            if (l) { l->waiting = true; l->ready = more; }
            mc::block_until(more, "recvmsg"); mc::ghost(this);
            if (l) l->waiting = false;
        }
        if (fail_recv > 0 && --fail_recv == 0) return err(ECONNRESET);
        if (want > 0 && e->in.empty()) { if (e->reset) { e->reset = false; return err(ECONNRESET); } return ssize_t{0}; }
        ssize_t n = 0; for (std::size_t i = 0; i < m->msg_iovlen; ++i) { auto* b = static_cast<std::uint8_t*>(m->msg_iov[i].iov_base); for (std::size_t k = 0; k < m->msg_iov[i].iov_len && !e->in.empty(); ++k, ++n) { b[k] = e->in.front(); e->in.pop_front(); } }
        return n;
    }
    RB close(int fd) const noexcept override { step("close"); auto e = get(fd); if (!e) return err(EBADF); fds.erase(fd); shut(*e); return {}; }
    RB pipe(int p[2]) const noexcept override
    {
        step("pipe"); auto a = std::make_shared<End>(), b = std::make_shared<End>(); a->kind = PipeIn; b->kind = PipeOut; a->peer = b; b->peer = a; a->proc = b->proc = mc::cur_proc();
        p[0] = put(a); p[1] = put(b); ++pipes; return {};
    }
    R<ssize_t> read(int fd, void* b, size_t n) const noexcept override
    {
        step("read"); auto e = get(fd); if (!e) return err(EBADF); MC_CHECK(e->kind == PipeIn && !e->in.empty(), "reading the pipe blocks the engine");
        std::size_t k = 0; for (; k < n && !e->in.empty(); ++k) { static_cast<std::uint8_t*>(b)[k] = e->in.front(); e->in.pop_front(); }
        return ssize_t(k);
    }
    R<ssize_t> write(int fd, const void* b, size_t n) const noexcept override
    {
        step("write"); auto e = get(fd); if (!e) return err(EBADF); MC_CHECK(e->kind == PipeOut && e->peer, "the pipe is written after it was closed"); if (!e->peer) return err(EPIPE);
        auto* c = static_cast<const std::uint8_t*>(b); e->peer->in.insert(e->peer->in.end(), c, c + n); return ssize_t(n);
    }
    short events(const pollfd& p) const
    {
        if (p.fd < 0) return 0;
        auto i = fds.find(p.fd); if (i == fds.end()) return POLLNVAL;
        auto& e = *i->second; short r = 0;
        if ((p.events & POLLIN) && (!e.in.empty() || !e.backlog.empty() || e.peer_closed)) r |= POLLIN;
        if ((p.events & POLLOUT) && e.kind == Stream) r |= POLLOUT;
        if (e.peer_closed) r |= POLLHUP;
        return r;
    }
    R<std::int32_t> poll(pollfd* f, nfds_t n, std::int32_t t) const noexcept override
    {
        step("poll");
        int id = -1; for (nfds_t i = 0; i < n; ++i) { auto x = fds.find(f[i].fd); if (x != fds.end() && x->second->kind == PipeIn) id = f[i].fd; }
        const std::uint64_t until = t < 0 ? ~0ull : mc::now_ns() + std::uint64_t(t) * 1000000;
        auto ready = [this, f, n, until] { if (mc::now_ns() >= until) return true; for (nfds_t i = 0; i < n; ++i) if (events(f[i])) return true; return false; };
        loops[id].tid = mc::cur_tid(); loops[id].waiting = true; loops[id].ready = ready;
        mc::block_until(ready, "poll"); mc::ghost(this);
        loops[id].waiting = false;
        int c = 0; for (nfds_t i = 0; i < n; ++i) { f[i].revents = events(f[i]); MC_CHECK(f[i].revents != POLLNVAL, "a descriptor is polled that is not open"); c += f[i].revents != 0; }
        return c;
    }
    void forget(int engine_pipe) const { loops.erase(engine_pipe); --pipes; }

    // a peer driven by the harness
    struct Raw { P end; bool connected() const { return end && !end->peer_closed; } };
    Raw raw_connect(const std::string& id, int proc) const { step("raw connect"); Raw r; r.end = std::make_shared<End>(); r.end->proc = proc; std::string n(id); n.resize(sizeof(sockaddr_un::sun_path) - 1, '\0'); if (!connect_end(r.end, n)) r.end.reset(); return r; }
    void raw_write(Raw& r, const Bytes& b) const { step("raw write"); if (r.end->peer) r.end->peer->in.insert(r.end->peer->in.end(), b.begin(), b.end()); }
    Bytes raw_read(Raw& r) const { mc::ghost(this); Bytes b(r.end->in.begin(), r.end->in.end()); r.end->in.clear(); return b; }
    void raw_close(Raw& r) const { step("raw close"); shut(*r.end); r.end.reset(); }
};
inline Bytes frame(std::uint8_t code, const Bytes& b) { const std::uint16_t n = std::uint16_t(b.size()); Bytes f(3); f[0] = code; std::memcpy(&f[1], &n, 2); f.insert(f.end(), b.begin(), b.end()); return f; }
}  // namespace sock
#endif
