#pragma once
#include "score/stop_token.hpp"
#include <thread>
namespace score::cpp
{
class jthread
{
  public:
    using id = std::thread::id;
    jthread() noexcept : src_(nostopstate) {}
    template <class F, class... A> explicit jthread(F&& f, A&&... a) { if constexpr (std::is_invocable_v<std::decay_t<F>, stop_token, std::decay_t<A>...>) t_ = std::thread(std::forward<F>(f), src_.get_token(), std::forward<A>(a)...); else t_ = std::thread(std::forward<F>(f), std::forward<A>(a)...); }
    jthread(jthread&&) noexcept = default;
    jthread& operator=(jthread&& o) noexcept { stop(); t_ = std::move(o.t_); src_ = std::move(o.src_); return *this; }
    ~jthread() { stop(); }
    bool joinable() const { return t_.joinable(); } void join() { t_.join(); } void detach() { t_.detach(); }
    id get_id() const { return t_.get_id(); } bool request_stop() { return src_.request_stop(); } stop_token get_stop_token() const { return src_.get_token(); } stop_source get_stop_source() { return src_; }
  private:
    void stop() { if (t_.joinable()) { src_.request_stop(); t_.join(); } }
    stop_source src_; std::thread t_;
};
}  // namespace score::cpp
