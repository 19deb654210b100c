// An in-memory operating system: files, POSIX shared memory objects, open file descriptions, advisory locks, permissions.
// Every system call is one atomic step and a scheduling point; a step may fail (enumerated) or be a crash point.
#ifndef VERIF_FAKEOS_H
#define VERIF_FAKEOS_H
#include "mc.h"
#include "score/os/utils/acl/access_control_list.h"
#include "score/os/fcntl.h"
#include "score/os/mman.h"
#include "score/os/stat.h"
#include "score/os/unistd.h"
#include <array>
#include <cstring>
#include <map>
#include <string>

namespace fos
{
using score::os::Error;
template <class T> using R = score::cpp::expected<T, Error>;
using RB = score::cpp::expected_blank<Error>;

constexpr int kPool = 8;
constexpr std::size_t kBlock = 1u << 16;

struct Inode
{
    bool shm{false}; unsigned mode{0}; unsigned uid{0}; std::size_t size{0}; unsigned char* mem{nullptr}; int id{0}; int creator{0}; bool linked{true}; int maps{0}; std::map<unsigned, unsigned> acl;
};
struct Ofd { Inode* ino; int lock{0}; int proc; bool rw{false}; };  // lock: 0 none, 1 shared, 2 exclusive

struct Kernel
{
    std::map<std::string, std::shared_ptr<Inode>> names;   // "F" + path or "S" + path
    std::vector<std::shared_ptr<Inode>> all;
    std::map<int, Ofd> fds;
    int next_fd{100}, next_ino{1};
    std::array<Inode*, kPool> pool{};   // who owns which block of memory
    std::map<int, unsigned> uid_of_proc;
    unsigned umask_{0022};
    int faults_left{0};                                        // how many calls may still fail
    std::function<int(const std::string& call, const std::string& path)> fault_errno;  // candidates: errno or 0
    std::vector<std::string> trace; bool tracing{false};
    int bad_calls{0};
    static unsigned char* block(int i) { alignas(4096) static unsigned char b[kPool][kBlock]; return b[i]; }
    bool points{true}; bool ended{false};   // ended: the harness is cleaning up after dead processes
    std::function<void(const std::string& call, const std::string& path)> on_call;  // after the call took effect

    unsigned uid() { auto i = uid_of_proc.find(mc::cur_proc()); return i == uid_of_proc.end() ? default_uid : i->second; }
    unsigned default_uid{1000};
    void reap() { for (auto i = fds.begin(); i != fds.end();) if (mc::proc_dead(i->second.proc)) i = fds.erase(i); else ++i; }
    // The start of every system call; returns an errno to fail with.
    int enter(const char* call, const std::string& path)
    {
        if (points) mc::point(call);
        mc::ghost(this);
        reap();
        mc::log(std::string(call) + " " + path);
        if (faults_left > 0 && fault_errno)
        {
            int e = fault_errno(call, path);
            if (e != 0 && mc::choose(2, "fault") == 1) { --faults_left; mc::log("  fails with " + std::to_string(e)); return e; }
        }
        return 0;
    }
    // a block nobody can reach any more is used again
    unsigned char* take(Inode* n)
    {
        for (int i = 0; i < kPool; ++i)
        {
            Inode* o = pool[i];
            if (o) { bool open = o->linked || o->maps > 0; for (auto& f : fds) open = open || f.second.ino == o; if (open) continue; }
            pool[i] = n; std::memset(block(i), 0, kBlock); return block(i);
        }
        return nullptr;
    }
    Ofd* fd(int f) { auto i = fds.find(f); if (i == fds.end()) { ++bad_calls; return nullptr; } return &i->second; }
    bool can_lock(const Ofd& o, int want)
    {
        for (auto& k : fds) if (&k.second != &o && k.second.ino == o.ino && k.second.lock && (want == 2 || k.second.lock == 2)) return false;
        return true;
    }
    int open_fds(int proc = -1) { int n = 0; for (auto& f : fds) if (proc < 0 || f.second.proc == proc) ++n; return n; }
    std::string root;   // what the file names of the current domain are prefixed with
    std::string F(const char* p) const { return "F" + root + p; }
    bool exists(const std::string& n) { return names.count(n) != 0; }
};
inline Kernel*& kernel() { static Kernel* k = nullptr; return k; }

inline auto fail(int e) { return score::cpp::make_unexpected(Error::createFromErrno(e)); }
inline bool may(const Inode& i, unsigned uid, bool write)
{
    if (i.uid != uid) { auto a = i.acl.find(uid); if (a != i.acl.end()) return (a->second & 4u) && (!write || (a->second & 2u)); }
    unsigned m = i.mode; unsigned s = i.uid == uid ? 6 : 0;
    unsigned r = (m >> s) & 7u;
    return (r & 4u) && (!write || (r & 2u));
}
inline R<std::int32_t> do_open(Kernel& k, const std::string& key, unsigned flags, unsigned mode, bool shm)
{
    const bool write = (flags & O_ACCMODE) != O_RDONLY;
    auto i = k.names.find(key);
    if (i != k.names.end() && (flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if (i == k.names.end())
    {
        if (!(flags & O_CREAT)) return fail(ENOENT);
        auto n = std::make_shared<Inode>();
        n->shm = shm; n->mode = mode & ~k.umask_ & 0777u; n->uid = k.uid(); n->id = k.next_ino++; n->creator = mc::cur_proc();
        if (shm) { n->mem = k.take(n.get()); if (!n->mem) return fail(ENOSPC); }
        k.names[key] = n; k.all.push_back(n);
    }
    else if (!may(*i->second, k.uid(), write)) return fail(EACCES);
    int f = k.next_fd++;
    k.fds[f] = Ofd{k.names[key].get(), 0, mc::cur_proc(), write};
    return f;
}
struct FFcntl final : score::os::Fcntl
{
    R<std::int32_t> open(const char* p, Open f) const noexcept override { return open(p, f, static_cast<score::os::Stat::Mode>(0)); }
    R<std::int32_t> open(const char* p, Open f, score::os::Stat::Mode m) const noexcept override
    {
        Kernel& k = *kernel(); if (int e = k.enter("open", p)) return fail(e);
        auto r = do_open(k, k.F(p), static_cast<unsigned>(f), static_cast<unsigned>(m), false);
        if (k.on_call) k.on_call("open", p);
        return r;
    }
    RB flock(std::int32_t fd, Operation op) const noexcept override
    {
        Kernel& k = *kernel(); if (int e = k.enter("flock", std::to_string(fd))) return fail(e);
        Ofd* o = k.fd(fd); if (!o) return fail(EBADF);
        const unsigned u = static_cast<unsigned>(op);
        if (u & LOCK_UN) { o->lock = 0; return score::cpp::blank{}; }
        const int want = (u & LOCK_EX) ? 2 : 1;
        if (!k.can_lock(*o, want))
        {
            if (u & LOCK_NB) return fail(EWOULDBLOCK);
            // like Linux: converting drops the lock held before blocking
            o->lock = 0;
            mc::block_until([&k, fd, want] { k.reap(); Ofd* q = k.fd(fd); return q == nullptr || k.can_lock(*q, want); }, "flock");
            mc::ghost(&k);
            o = k.fd(fd); if (!o) return fail(EBADF);
        }
        o->lock = want;
        return score::cpp::blank{};
    }
};
struct FUnistd final : score::os::Unistd
{
    RB close(int fd) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("close", std::to_string(fd))) return fail(e); auto* o = k.fd(fd); if (!o && k.ended) return score::cpp::blank{}; if (!o) { mc::violation("closed a file descriptor that is not open"); return fail(EBADF); } k.fds.erase(fd); return score::cpp::blank{}; }
    RB unlink(const char* p) const noexcept override
    {
        Kernel& k = *kernel(); if (int e = k.enter("unlink", p)) return fail(e);
        auto i = k.names.find(k.F(p)); if (i == k.names.end()) return fail(ENOENT);
        i->second->linked = false; k.names.erase(i); if (k.on_call) k.on_call("unlink", p); return score::cpp::blank{};
    }
    RB access(const char* p, int) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("access", p)) return fail(e); if (!k.exists(k.F(p))) return fail(ENOENT); return score::cpp::blank{}; }
    RB ftruncate(int fd, off_t l) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("ftruncate", std::to_string(l))) return fail(e); Ofd* o = k.fd(fd); if (!o) return fail(EBADF); if (!o->rw) return fail(EINVAL); if (static_cast<std::size_t>(l) > kBlock) return fail(ENOSPC); o->ino->size = static_cast<std::size_t>(l); return score::cpp::blank{}; }
    pid_t getpid() const noexcept override { return 1000 + mc::cur_proc(); }
    uid_t getuid() const noexcept override { return kernel()->uid(); }
    gid_t getgid() const noexcept override { return kernel()->uid(); }
};
struct FMman final : score::os::Mman
{
    R<void*> mmap(void*, size_t l, Protection p, Map, int fd, off_t) const noexcept override
    {
        Kernel& k = *kernel(); if (int e = k.enter("mmap", std::to_string(l))) return fail(e);
        Ofd* o = k.fd(fd); if (!o) return fail(EBADF); if (l == 0 || !o->ino->mem) return fail(EINVAL);
        if ((static_cast<int>(p) & PROT_WRITE) && !o->rw) return fail(EACCES);
        ++o->ino->maps;
        return static_cast<void*>(o->ino->mem);
    }
    RB munmap(void* p, size_t) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("munmap", "")) return fail(e); for (auto* o : k.pool) if (o && o->mem == p && o->maps > 0) --o->maps; return score::cpp::blank{}; }
    R<std::int32_t> shm_open(const char* p, score::os::Fcntl::Open f, score::os::Stat::Mode m) const noexcept override
    {
        Kernel& k = *kernel(); if (int e = k.enter("shm_open", p)) return fail(e);
        auto r = do_open(k, std::string("S") + p, static_cast<unsigned>(f), static_cast<unsigned>(m), true);
        if (k.on_call) k.on_call("shm_open", p);
        return r;
    }
    RB shm_unlink(const char* p) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("shm_unlink", p)) return fail(e); auto i = k.names.find(std::string("S") + p); if (i == k.names.end()) return fail(ENOENT); i->second->linked = false; k.names.erase(i); return score::cpp::blank{}; }
};
struct FStat final : score::os::Stat
{
    static void fill(score::os::StatBuffer& b, const Inode& i) { b = {}; b.st_ino = static_cast<std::uint64_t>(i.id); b.st_size = static_cast<std::int64_t>(i.size); b.st_mode = i.mode | (i.shm ? 0u : static_cast<unsigned>(S_IFREG)); b.st_uid = i.uid; b.st_gid = i.uid; }
    RB stat(const char* p, score::os::StatBuffer& b, bool) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("stat", p)) return fail(e); auto i = k.names.find(k.F(p)); if (i == k.names.end()) return fail(ENOENT); fill(b, *i->second); return score::cpp::blank{}; }
    RB fstat(int fd, score::os::StatBuffer& b) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("fstat", std::to_string(fd))) return fail(e); Ofd* o = k.fd(fd); if (!o) return fail(EBADF); fill(b, *o->ino); return score::cpp::blank{}; }
    RB mkdir(const char* p, Mode) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("mkdir", p)) return fail(e); return score::cpp::blank{}; }
    RB chmod(const char* p, Mode m) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("chmod", p)) return fail(e); auto i = k.names.find(k.F(p)); if (i == k.names.end()) return fail(ENOENT); if (i->second->uid != k.uid()) return fail(EPERM); i->second->mode = static_cast<unsigned>(m) & 0777u; return score::cpp::blank{}; }
    RB fchmod(int fd, Mode m) const noexcept override { Kernel& k = *kernel(); if (int e = k.enter("fchmod", std::to_string(fd))) return fail(e); Ofd* o = k.fd(fd); if (!o) return fail(EBADF); if (o->ino->uid != k.uid()) return fail(EPERM); o->ino->mode = static_cast<unsigned>(m) & 0777u; return score::cpp::blank{}; }
};
struct Os
{
    Kernel k; FFcntl f; FUnistd u; FMman m; FStat s;
    Os()
    {
        kernel() = &k;
        score::os::AccessControlList::hook() = [this](int fd, unsigned u, score::os::Acl::Permission p) { if (Ofd* o = k.fd(fd)) o->ino->acl[u] |= p == score::os::Acl::Permission::kRead ? 4u : p == score::os::Acl::Permission::kWrite ? 2u : 1u; };
        score::os::Fcntl::set_testing_instance(f); score::os::Unistd::set_testing_instance(u); score::os::Mman::set_testing_instance(m); score::os::Stat::set_testing_instance(s);
    }
    ~Os() { score::os::AccessControlList::hook() = nullptr; score::os::Fcntl::restore_instance(); score::os::Unistd::restore_instance(); score::os::Mman::restore_instance(); score::os::Stat::restore_instance(); kernel() = nullptr; }
};
}  // namespace fos
#endif
