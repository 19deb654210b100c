#pragma once
#include "score/concurrency/executor.h"
#include <deque>
#include <string_view>
#include <thread>
#include <vector>
namespace score::concurrency
{
class ThreadPool : public Executor
{
  public:
    explicit ThreadPool(std::size_t n, std::string_view = {}) { for (std::size_t i = 0; i < n; ++i) th_.emplace_back([this] { run(); }); }
    explicit ThreadPool(std::size_t n, score::cpp::pmr::memory_resource*, std::string_view = {}) : ThreadPool(n) {}
    ~ThreadPool() noexcept override { Shutdown(); for (auto& t : th_) t.join(); }
    std::size_t MaxConcurrencyLevel() const noexcept override { return th_.size(); }
    bool ShutdownRequested() const noexcept override { return src_.stop_requested(); }
    void Shutdown() noexcept override { { std::lock_guard<std::mutex> l{m_}; stop_ = true; } src_.request_stop(); cv_.notify_all(); }
    void Enqueue(score::cpp::pmr::unique_ptr<Task> t) override { std::lock_guard<std::mutex> l{m_}; if (stop_) return; q_.push_back(std::move(t)); cv_.notify_one(); }
  private:
    void run() { for (;;) { score::cpp::pmr::unique_ptr<Task> t; { std::unique_lock<std::mutex> l{m_}; while (!stop_ && q_.empty()) cv_.wait(l); if (stop_) return; t = std::move(q_.front()); q_.pop_front(); } (*t)(src_.get_token()); } }
    std::mutex m_; std::condition_variable cv_; bool stop_{false}; std::deque<score::cpp::pmr::unique_ptr<Task>> q_; score::cpp::stop_source src_; std::vector<std::thread> th_;
};
}  // namespace score::concurrency
