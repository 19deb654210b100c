#pragma once
#include "score/concurrency/executor.h"
#include <thread>
#include <vector>
namespace score::concurrency
{
class LongRunningThreadsContainer : public Executor
{
  public:
    LongRunningThreadsContainer() = default;
    explicit LongRunningThreadsContainer(score::cpp::pmr::memory_resource*) {}
    ~LongRunningThreadsContainer() noexcept override { Shutdown(); for (auto& t : th_) if (t.joinable()) t.join(); }
    std::size_t MaxConcurrencyLevel() const noexcept override { return 1000; }
    bool ShutdownRequested() const noexcept override { return src_.stop_requested(); }
    void Shutdown() noexcept override { std::lock_guard<std::mutex> l{m_}; src_.request_stop(); for (auto& s : st_) s.request_stop(); }
    void Enqueue(score::cpp::pmr::unique_ptr<Task> t) override { std::lock_guard<std::mutex> l{m_}; if (ShutdownRequested()) return; std::shared_ptr<Task> s{t.release(), [d = t.get_deleter()](Task* x) { d(x); }}; th_.emplace_back([s, tok = src_.get_token()] { (*s)(tok); }); }
    template <class F> TaskResult<void> Submit(F&& f) { auto st = std::make_shared<TaskResult<void>::St>(); std::lock_guard<std::mutex> l{m_}; if (ShutdownRequested()) { static const AbortedDomain d{}; st->error = score::result::Error{0, d, {}}; st->finish(); return TaskResult<void>{st}; } st_.push_back(st->src); th_.emplace_back([fn = std::forward<F>(f), st]() mutable { run_task(fn, *st); }); return TaskResult<void>{st}; }
  private:
    std::mutex m_;
    score::cpp::stop_source src_; std::vector<score::cpp::stop_source> st_; std::vector<std::thread> th_;
};
}  // namespace score::concurrency
