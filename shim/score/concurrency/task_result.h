#pragma once
#include <condition_variable>
#include <memory>
#include <mutex>
#include <optional>
#include "score/stop_token.hpp"
#include "score/result/result.h"
namespace score::concurrency
{
struct AbortedDomain final : score::result::ErrorDomain { std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "aborted"; } };
template <class F, class S> void run_task(F& f, S& st)
{
    if constexpr (std::is_void_v<decltype(f(st.src.get_token()))>) { f(st.src.get_token()); }
    else { auto r = f(st.src.get_token()); if (!r.has_value()) { if constexpr (std::is_same_v<std::decay_t<decltype(r.error())>, score::result::Error>) st.error = r.error(); } }
    st.finish();
}
template <class T> class TaskResult
{
  public:
    struct St { std::mutex m; std::condition_variable cv; bool done{false}; std::optional<score::result::Error> error; score::cpp::stop_source src; void finish() { std::lock_guard<std::mutex> l{m}; done = true; cv.notify_all(); } };
    TaskResult() = default;
    explicit TaskResult(std::shared_ptr<St> s) : s_(std::move(s)) {}
    TaskResult(TaskResult&&) noexcept = default;
    TaskResult& operator=(TaskResult&& o) noexcept { if (this != &o) { Abort(); s_ = std::move(o.s_); } return *this; }
    ~TaskResult() { Abort(); }
    void Abort() noexcept { if (s_) s_->src.request_stop(); }
    bool Valid() const { return s_ != nullptr; }
    score::cpp::expected_blank<int> Wait() { if (s_) { std::unique_lock<std::mutex> l{s_->m}; while (!s_->done) s_->cv.wait(l); } return score::cpp::blank{}; }
    template <class U = T> std::enable_if_t<std::is_void_v<U>, score::ResultBlank> Get() { Wait(); if (s_ && s_->error) return score::cpp::unexpected<score::result::Error>{*s_->error}; return score::cpp::blank{}; }
    std::shared_ptr<St> s_;
};
}  // namespace score::concurrency
