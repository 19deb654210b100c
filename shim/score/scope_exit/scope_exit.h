#pragma once
#include "score/callback.hpp"
#include <functional>
#include <optional>
namespace score::utils
{
template <class F = std::function<void()>> class ScopeExit
{
  public:
    ScopeExit() = default;
    explicit ScopeExit(F f) : f_(std::move(f)) {}
    ScopeExit(const ScopeExit&) = delete; ScopeExit& operator=(const ScopeExit&) = delete;
    ScopeExit(ScopeExit&& o) noexcept : f_(std::move(o.f_)) { o.f_.reset(); }
    ScopeExit& operator=(ScopeExit&& o) noexcept { if (this != &o) { run(); f_.reset(); if (o.f_) f_.emplace(std::move(*o.f_)); o.f_.reset(); } return *this; }
    ~ScopeExit() { run(); }
    void Release() noexcept { f_.reset(); }
  private:
    void run() { if (f_) { if constexpr (std::is_constructible_v<bool, const F&>) { if (!static_cast<bool>(*f_)) return; } std::invoke(*f_); } }
    std::optional<F> f_;
};
template <class F> ScopeExit(F) -> ScopeExit<F>;
}  // namespace score::utils
