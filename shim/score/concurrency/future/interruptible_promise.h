#ifndef VSHIM_INTERRUPTIBLE_PROMISE_H
#define VSHIM_INTERRUPTIBLE_PROMISE_H
#include "score/result/result.h"
#include "score/stop_token.hpp"
#include <memory>
#include <optional>
namespace score::concurrency
{
template <typename T>
class InterruptibleFuture
{
  public:
    InterruptibleFuture() = default;
    explicit InterruptibleFuture(std::shared_ptr<std::optional<T>> s) : s_(std::move(s)) {}
    bool Valid() const noexcept { return s_ != nullptr; }
    score::Result<T> Get(const score::cpp::stop_token&) { auto s = std::move(s_); return std::move(**s); }
  private:
    std::shared_ptr<std::optional<T>> s_;
};
template <typename T>
class InterruptiblePromise
{
  public:
    score::Result<InterruptibleFuture<T>> GetInterruptibleFuture() { return InterruptibleFuture<T>{s_}; }
    void SetValue(T v) { s_->emplace(std::move(v)); }
  private:
    std::shared_ptr<std::optional<T>> s_{std::make_shared<std::optional<T>>()};
};
}  // namespace score::concurrency
#endif
