#pragma once
#include "score/os/errno.h"
#include "score/os/vbits.h"
#include "score/static_vector.hpp"
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <vector>
#include <algorithm>
#include <string>
#include <string_view>
namespace score::os
{
class InotifyWatchDescriptor
{
  public:
    explicit InotifyWatchDescriptor(std::int32_t d) : d_(d) {}
    std::int32_t GetUnderlying() const noexcept { return d_; }
    friend bool operator==(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return a.d_ == b.d_; } friend bool operator!=(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return !(a == b); }
  private:
    std::int32_t d_;
};
class Inotify { public: enum class EventMask : std::uint32_t { kUnknown = 0, kAccess = 1, kInMovedTo = 0x80, kInCreate = 0x100, kInDelete = 0x200 }; VSHIM_FBITS(EventMask) };
class InotifyEvent
{
  public:
    enum class ReadMask : std::uint32_t { kUnknown = 0, kInAccess = 1, kInMovedTo = 0x80, kInCreate = 0x100, kInDelete = 0x200, kInDeleteSelf = 0x400, kInUnmount = 0x2000, kInQOverflow = 0x4000, kInIgnored = 0x8000, kInIsDir = 0x40000000 };
    VSHIM_FBITS(ReadMask)
    InotifyEvent(InotifyWatchDescriptor w, ReadMask m, std::string n, std::uint32_t c = 0) : w_(w), m_(m), n_(std::move(n)), c_(c) {}
    InotifyWatchDescriptor GetWatchDescriptor() const noexcept { return w_; } ReadMask GetMask() const noexcept { return m_; } std::uint32_t GetCookie() const noexcept { return c_; } std::string_view GetName() const noexcept { return n_; }
  private:
    InotifyWatchDescriptor w_; ReadMask m_; std::string n_; std::uint32_t c_;
};
class InotifyInstance
{
  public:
    static constexpr std::size_t max_events = 10U;
    virtual ~InotifyInstance() = default;
    virtual score::cpp::expected_blank<Error> IsValid() const noexcept = 0;
    virtual void Close() noexcept = 0;
    virtual score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view path, Inotify::EventMask) noexcept = 0;
    virtual score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor) noexcept = 0;
    virtual score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept = 0;
};
// Connects the in-memory file system with all simulated inotify instances.
struct InotifyBus { std::vector<class VInotify*> inst; std::function<void(bool)> section;  // brackets what a kernel does in one step
    static InotifyBus& get() { static InotifyBus b; return b; } void remove(VInotify* v) { inst.erase(std::remove(inst.begin(), inst.end(), v), inst.end()); } inline void notify(const std::string& dir, const std::string& name, bool created, bool isdir); };
class VInotify : public InotifyInstance
{
  public:
    VInotify() { InotifyBus::get().inst.push_back(this); } ~VInotify() override { InotifyBus::get().remove(this); }
    score::cpp::expected_blank<Error> IsValid() const noexcept override { return score::cpp::blank{}; }
    void Close() noexcept override { std::lock_guard<std::mutex> l{m}; closed = true; cv.notify_all(); }
    score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view p, Inotify::EventMask) noexcept override { if (touched) touched("watch"); if (fail && fail()) return score::cpp::make_unexpected(Error::createFromErrno(ENOSPC)); std::lock_guard<std::mutex> l{m}; std::string s{p}; if (exists && !exists(s)) return score::cpp::make_unexpected(Error::createFromErrno(ENOENT)); for (auto& [k, v] : w) if (v == s) return InotifyWatchDescriptor{k}; w[++next] = s; return InotifyWatchDescriptor{next}; }
    score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor d) noexcept override { std::lock_guard<std::mutex> l{m}; if (w.erase(d.GetUnderlying()) == 0) return score::cpp::make_unexpected(Error::createFromErrno(EINVAL)); q.emplace_back(d, InotifyEvent::ReadMask::kInIgnored, ""); cv.notify_all(); return score::cpp::blank{}; }
    score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept override { std::unique_lock<std::mutex> l{m}; while (!closed && q.empty() && !nonblock) { waiting = true; cv.wait(l); } waiting = false; score::cpp::static_vector<InotifyEvent, max_events> r; if (closed) return score::cpp::make_unexpected(Error::createFromErrno(EINTR)); while (!q.empty() && r.size() < max_events) { r.push_back(q.front()); q.pop_front(); } return r; }
    void event(const std::string& dir, const std::string& name, bool created, bool isdir) { std::lock_guard<std::mutex> l{m}; for (auto& [k, v] : w) if (v == dir) { auto mask = created ? InotifyEvent::ReadMask::kInCreate : InotifyEvent::ReadMask::kInDelete; if (isdir) mask = mask | InotifyEvent::ReadMask::kInIsDir; q.emplace_back(InotifyWatchDescriptor{k}, mask, name); cv.notify_all(); } }
    std::mutex m; std::condition_variable cv; bool closed{false}; bool nonblock{false}; bool waiting{false}; std::function<void(const char*)> touched; std::int32_t next{0}; std::map<std::int32_t, std::string> w; std::deque<InotifyEvent> q; std::function<bool(const std::string&)> exists; std::function<bool()> fail;
};
inline void InotifyBus::notify(const std::string& dir, const std::string& name, bool created, bool isdir) { if (section) section(true); for (auto* i : inst) i->event(dir, name, created, isdir); if (section) section(false); }
}  // namespace score::os
template <> struct std::hash<score::os::InotifyWatchDescriptor> { std::size_t operator()(const score::os::InotifyWatchDescriptor& d) const noexcept { return static_cast<std::size_t>(d.GetUnderlying()); } };
