#pragma once
#include <memory>
#include <mutex>
#include <condition_variable>
#include <optional>
#include "score/blank.hpp"
#include "score/memory.hpp"
namespace score::safecpp
{
namespace details
{
// Expire() blocks until every running scoped function has returned; afterwards none starts any more.
struct ScopeState { std::mutex m; std::condition_variable cv; bool expired{false}; unsigned running{0};
    bool enter() { std::lock_guard<std::mutex> l{m}; if (expired) return false; ++running; return true; }
    void leave() { std::lock_guard<std::mutex> l{m}; --running; if (running == 0) cv.notify_all(); }
    void expire() { std::unique_lock<std::mutex> l{m}; expired = true; while (running != 0) cv.wait(l); } };
struct ScopeGuard { ScopeState& s; bool in; explicit ScopeGuard(ScopeState& x) : s(x), in(x.enter()) {} ~ScopeGuard() { if (in) s.leave(); } };
}  // namespace details
template <class = void> class Scope
{
  public:
    Scope() : s_(std::make_shared<details::ScopeState>()) {}
    Scope(const Scope&) = delete; Scope& operator=(const Scope&) = delete;
    Scope(Scope&& o) noexcept = default;
    Scope& operator=(Scope&& o) noexcept { if (this != &o) { Expire(); s_ = std::move(o.s_); } return *this; }
    ~Scope() { Expire(); }
    void Expire() noexcept { if (s_) s_->expire(); }
    std::shared_ptr<details::ScopeState> s_;
};
}  // namespace score::safecpp
