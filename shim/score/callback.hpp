#pragma once
#include "score/assert.hpp"
#include <cstdint>
#include <cstddef>
#include <cstdint>
#include <optional>
#include <vector>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace score::cpp
{
template <class Sig, std::size_t Cap = 32U, std::size_t Align = alignof(std::max_align_t)> class callback;
template <class Sig> class move_only_function;
namespace detail
{
template <class F> struct is_null_testable : std::disjunction<std::is_pointer<F>, std::is_member_pointer<F>> {};
template <class S> struct is_null_testable<std::function<S>> : std::true_type {};
template <class R, class... A> class mo_function
{
    struct base { virtual ~base() = default; virtual R call(A... a) = 0; };
    template <class F> struct impl final : base { F f; template <class G> explicit impl(G&& g) : f(std::forward<G>(g)) {} R call(A... a) override { return static_cast<R>(std::invoke(f, std::forward<A>(a)...)); } };
  protected:
    std::unique_ptr<base> p_;
    template <class F> void set(F&& f) { using D = std::decay_t<F>; if constexpr (is_null_testable<D>::value) { if (!f) return; } p_.reset(new impl<D>(std::forward<F>(f))); }
  public:
    mo_function() noexcept = default;
    bool empty() const noexcept { return p_ == nullptr; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    R operator()(A... a) const { if (!p_) ::vshim::assert_fail(__FILE__, __LINE__, "callback", "!empty()", "call of empty callback"); return p_->call(std::forward<A>(a)...); }
};
}  // namespace detail
template <class R, class... A, std::size_t Cap, std::size_t Align>
class callback<R(A...), Cap, Align> : public detail::mo_function<R, A...>
{
  public:
    callback() noexcept = default;
    using alignment_t = std::integral_constant<std::size_t, Align>;
    using capacity_t = std::integral_constant<std::size_t, Cap>;
    callback(std::nullptr_t) noexcept {}
    callback(const callback&) = delete; callback& operator=(const callback&) = delete;
    callback(callback&&) noexcept = default; callback& operator=(callback&&) noexcept = default;
    template <class F, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, callback> && std::is_invocable_r_v<R, std::decay_t<F>&, A...>>> callback(F&& f) { this->set(std::forward<F>(f)); }
    callback& operator=(std::nullptr_t) noexcept { this->p_.reset(); return *this; }
    friend bool operator==(const callback& c, std::nullptr_t) { return c.empty(); }
    friend bool operator!=(const callback& c, std::nullptr_t) { return !c.empty(); }
};
template <class R, class... A>
class move_only_function<R(A...)> : public detail::mo_function<R, A...>
{
  public:
    move_only_function() noexcept = default;
    move_only_function(std::nullptr_t) noexcept {}
    move_only_function(move_only_function&&) noexcept = default; move_only_function& operator=(move_only_function&&) noexcept = default;
    template <class F, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, move_only_function> && std::is_invocable_r_v<R, std::decay_t<F>&, A...>>> move_only_function(F&& f) { this->set(std::forward<F>(f)); }
};
template <class R, class... A> class move_only_function<R(A...) const> : public move_only_function<R(A...)> { public: using move_only_function<R(A...)>::move_only_function; };
}  // namespace score::cpp
