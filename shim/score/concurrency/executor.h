#pragma once
#include "score/concurrency/simple_task.h"
#include "score/concurrency/task_result.h"
#include <memory>
namespace score::concurrency
{
class Executor
{
  public:
    virtual ~Executor() noexcept = default;
    virtual std::size_t MaxConcurrencyLevel() const noexcept = 0;
    virtual bool ShutdownRequested() const noexcept = 0;
    virtual void Shutdown() noexcept = 0;
    virtual void Enqueue(score::cpp::pmr::unique_ptr<Task>) = 0;
    template <class F, class... A> void Post(F&& f, A&&... a) { Enqueue(SimpleTaskFactory::Make(score::cpp::pmr::get_default_resource(), [fn = std::forward<F>(f), tup = std::make_tuple(std::forward<A>(a)...)](const score::cpp::stop_token t) mutable { std::apply([&](auto&... x) { fn(t, x...); }, tup); })); }
    template <class F> TaskResult<void> Submit(F&& f) { auto st = std::make_shared<TaskResult<void>::St>(); Enqueue(SimpleTaskFactory::Make(score::cpp::pmr::get_default_resource(), [fn = std::forward<F>(f), st](const score::cpp::stop_token) mutable { run_task(fn, *st); })); return TaskResult<void>{st}; }
};
}  // namespace score::concurrency
