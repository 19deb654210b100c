#pragma once
#include "score/concurrency/task.h"
#include <functional>
namespace score::concurrency
{
template <class F> class SimpleTask final : public Task { public: explicit SimpleTask(F f) : f_(std::move(f)) {} void operator()(const score::cpp::stop_token t) override { f_(t); } private: F f_; };
class SimpleTaskFactory { public: template <class F> static score::cpp::pmr::unique_ptr<Task> Make(score::cpp::pmr::memory_resource* r, F&& f) { return score::cpp::pmr::make_unique<SimpleTask<std::decay_t<F>>>(r, std::forward<F>(f)); } };
}  // namespace score::concurrency
