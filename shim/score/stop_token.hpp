#pragma once
#include <atomic>
#include <condition_variable>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <thread>
namespace score::cpp
{
struct nostopstate_t { explicit nostopstate_t() = default; };
inline constexpr nostopstate_t nostopstate{};
namespace detail
{
struct stop_state { std::mutex m; std::condition_variable cv; std::atomic<bool> stopped{false}; std::list<std::function<void()>*> cbs; std::function<void()>* running{nullptr}; std::thread::id by{};
    bool request()
    {
        std::unique_lock<std::mutex> l{m};
        if (stopped.exchange(true)) return false;
        by = std::this_thread::get_id();
        while (!cbs.empty()) { running = cbs.front(); cbs.pop_front(); l.unlock(); (*running)(); l.lock(); running = nullptr; cv.notify_all(); }
        return true;
    }
    void forget(std::function<void()>* f)   // waits for a call that another thread is executing
    {
        std::unique_lock<std::mutex> l{m};
        cbs.remove(f);
        while (running == f && by != std::this_thread::get_id()) cv.wait(l);
    } };
}
class stop_token
{
  public:
    stop_token() noexcept = default;
    explicit stop_token(std::shared_ptr<detail::stop_state> s) : s_(std::move(s)) {}
    bool stop_requested() const noexcept { return s_ && s_->stopped.load(); }
    bool stop_possible() const noexcept { return s_ != nullptr; }
    friend bool operator==(const stop_token& a, const stop_token& b) { return a.s_ == b.s_; }
    std::shared_ptr<detail::stop_state> s_;
};
class stop_source
{
  public:
    stop_source() : s_(std::make_shared<detail::stop_state>()) {}
    explicit stop_source(nostopstate_t) noexcept {}
    stop_token get_token() const noexcept { return stop_token{s_}; }
    bool request_stop() noexcept { return s_ && s_->request(); }
    bool stop_requested() const noexcept { return s_ && s_->stopped.load(); }
    bool stop_possible() const noexcept { return s_ != nullptr; }
    std::shared_ptr<detail::stop_state> s_;
};
class stop_callback
{
  public:
    template <class F> stop_callback(const stop_token& t, F&& f) : f_(std::make_unique<std::function<void()>>(std::forward<F>(f))), s_(t.s_) { if (!s_) return; bool now = false; { std::lock_guard<std::mutex> l{s_->m}; if (s_->stopped.load()) now = true; else s_->cbs.push_back(f_.get()); } if (now) (*f_)(); }
    ~stop_callback() { if (s_) s_->forget(f_.get()); }
    stop_callback(const stop_callback&) = delete;
  private:
    std::unique_ptr<std::function<void()>> f_; std::shared_ptr<detail::stop_state> s_;
};
}  // namespace score::cpp
