#pragma once
#include "score/language/safecpp/scoped_function/scope.h"
#include "score/callback.hpp"
#include <functional>
#include <optional>
namespace score::safecpp
{
template <class Sig> class MoveOnlyScopedFunction;
template <class Sig> class CopyableScopedFunction;
namespace details
{
template <class R> struct ScopedResult { using type = std::optional<R>; };
template <> struct ScopedResult<void> { using type = std::optional<score::cpp::blank>; };
}
template <class R, class... A> class MoveOnlyScopedFunction<R(A...)>
{
  public:
    MoveOnlyScopedFunction() = default;
    MoveOnlyScopedFunction(std::nullptr_t) {}
    template <class S, class F> MoveOnlyScopedFunction(const Scope<S>& s, F&& f) : s_(s.s_), f_(std::forward<F>(f)) {}
    template <class S, class F> MoveOnlyScopedFunction(score::cpp::pmr::memory_resource*, const Scope<S>& s, F&& f) : s_(s.s_), f_(std::forward<F>(f)) {}
    MoveOnlyScopedFunction(MoveOnlyScopedFunction&&) noexcept = default; MoveOnlyScopedFunction& operator=(MoveOnlyScopedFunction&&) noexcept = default;
    typename details::ScopedResult<R>::type operator()(A... a) const { if (!f_ || !s_) return {}; details::ScopeGuard g{*s_}; if (!g.in) return {}; if constexpr (std::is_void_v<R>) { f_(std::forward<A>(a)...); return score::cpp::blank{}; } else return f_(std::forward<A>(a)...); }
    explicit operator bool() const noexcept { return static_cast<bool>(f_); }
    friend bool operator==(const MoveOnlyScopedFunction& f, std::nullptr_t) { return !f.f_; } friend bool operator!=(const MoveOnlyScopedFunction& f, std::nullptr_t) { return static_cast<bool>(f.f_); }
  private:
    std::shared_ptr<details::ScopeState> s_; score::cpp::callback<R(A...)> f_;
};
template <class R, class... A> class CopyableScopedFunction<R(A...)>
{
  public:
    CopyableScopedFunction() = default;
    CopyableScopedFunction(std::nullptr_t) {}
    template <class S, class F> CopyableScopedFunction(const Scope<S>& s, F&& f) : s_(s.s_), f_(std::forward<F>(f)) {}
    typename details::ScopedResult<R>::type operator()(A... a) const { if (!f_ || !s_) return {}; details::ScopeGuard g{*s_}; if (!g.in) return {}; if constexpr (std::is_void_v<R>) { f_(std::forward<A>(a)...); return score::cpp::blank{}; } else return f_(std::forward<A>(a)...); }
    explicit operator bool() const noexcept { return static_cast<bool>(f_); }
    friend bool operator==(const CopyableScopedFunction& f, std::nullptr_t) { return !f.f_; } friend bool operator!=(const CopyableScopedFunction& f, std::nullptr_t) { return static_cast<bool>(f.f_); }
  private:
    std::shared_ptr<details::ScopeState> s_; std::function<R(A...)> f_;
};
}  // namespace score::safecpp
