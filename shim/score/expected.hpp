#pragma once
#include "score/assert.hpp"
#include "score/blank.hpp"
#include "score/utility.hpp"
#include <cstdint>
#include <exception>
#include <functional>
#include <type_traits>
#include <utility>
#include <variant>
namespace score::cpp
{
struct unexpect_t { explicit unexpect_t() = default; };
inline constexpr unexpect_t unexpect{};
template <class E> class unexpected
{
  public:
    unexpected() = delete;
    template <class G = E, class = std::enable_if_t<std::is_constructible_v<E, G&&> && !std::is_same_v<std::decay_t<G>, unexpected> && !std::is_same_v<std::decay_t<G>, std::in_place_t>>>
    constexpr explicit unexpected(G&& e) : e_(std::forward<G>(e)) {}
    template <class... A> constexpr explicit unexpected(std::in_place_t, A&&... a) : e_(std::forward<A>(a)...) {}
    constexpr const E& error() const& { return e_; }
    constexpr E& error() & { return e_; }
    constexpr E&& error() && { return std::move(e_); }
    constexpr const E& value() const& { return e_; }
    constexpr E&& value() && { return std::move(e_); }
  private:
    E e_;
};
template <class E> unexpected(E) -> unexpected<E>;
template <class E> constexpr unexpected<std::decay_t<E>> make_unexpected(E&& e) { return unexpected<std::decay_t<E>>{std::forward<E>(e)}; }
template <class E, class... A> constexpr unexpected<E> make_unexpected(A&&... a) { return unexpected<E>{E(std::forward<A>(a)...)}; }
template <class T, class E> class expected;
namespace detail { template <class T> struct is_expected : std::false_type {}; template <class T, class E> struct is_expected<expected<T, E>> : std::true_type {};
template <class T> struct is_unexpected : std::false_type {}; template <class E> struct is_unexpected<unexpected<E>> : std::true_type {}; }
template <class T, class E>
class expected
{
    std::variant<T, unexpected<E>> v_;
  public:
    using value_type = T; using error_type = E; using unexpected_type = unexpected<E>;
    template <class U = T, class = std::enable_if_t<std::is_default_constructible_v<U>>> constexpr expected() : v_(std::in_place_index<0>) {}
    template <class U = T, class = std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, expected> && !detail::is_unexpected<std::decay_t<U>>::value && !std::is_same_v<std::decay_t<U>, std::in_place_t> && (!detail::is_expected<std::decay_t<U>>::value || std::is_same_v<std::decay_t<U>, T>)>>
    constexpr expected(U&& u) : v_(std::in_place_index<0>, std::forward<U>(u)) {}
    template <class G, class = std::enable_if_t<std::is_constructible_v<E, const G&>>> constexpr expected(const unexpected<G>& u) : v_(std::in_place_index<1>, E(u.error())) {}
    template <class G, class = std::enable_if_t<std::is_constructible_v<E, G&&>>> constexpr expected(unexpected<G>&& u) : v_(std::in_place_index<1>, E(std::move(u).error())) {}
    template <class... A> constexpr explicit expected(std::in_place_t, A&&... a) : v_(std::in_place_index<0>, std::forward<A>(a)...) {}
    template <class... A> constexpr explicit expected(unexpect_t, A&&... a) : v_(std::in_place_index<1>, E(std::forward<A>(a)...)) {}
    template <class U, class G, class = std::enable_if_t<std::is_constructible_v<T, U&&> && std::is_constructible_v<E, G&&> && !(std::is_same_v<U, T> && std::is_same_v<G, E>)>>
    constexpr expected(expected<U, G>&& o) : v_(o.has_value() ? std::variant<T, unexpected<E>>(std::in_place_index<0>, std::move(o).value()) : std::variant<T, unexpected<E>>(std::in_place_index<1>, E(std::move(o).error()))) {}
    template <class U, class G, class = std::enable_if_t<std::is_constructible_v<T, const U&> && std::is_constructible_v<E, const G&> && !(std::is_same_v<U, T> && std::is_same_v<G, E>)>>
    constexpr expected(const expected<U, G>& o) : v_(o.has_value() ? std::variant<T, unexpected<E>>(std::in_place_index<0>, o.value()) : std::variant<T, unexpected<E>>(std::in_place_index<1>, E(o.error()))) {}
    constexpr bool has_value() const noexcept { return v_.index() == 0; }
    constexpr explicit operator bool() const noexcept { return has_value(); }
    constexpr T& value() & { chk(); return std::get<0>(v_); }
    constexpr const T& value() const& { chk(); return std::get<0>(v_); }
    constexpr T&& value() && { chk(); return std::get<0>(std::move(v_)); }
    constexpr const T&& value() const&& { chk(); return std::get<0>(std::move(v_)); }
    constexpr T& operator*() & { return value(); }
    constexpr const T& operator*() const& { return value(); }
    constexpr T&& operator*() && { return std::move(*this).value(); }
    constexpr T* operator->() { chk(); return &std::get<0>(v_); }
    constexpr const T* operator->() const { chk(); return &std::get<0>(v_); }
    constexpr E& error() & { chke(); return std::get<1>(v_).error(); }
    constexpr const E& error() const& { chke(); return std::get<1>(v_).error(); }
    constexpr E&& error() && { chke(); return std::move(std::get<1>(v_)).error(); }
    template <class U> constexpr T value_or(U&& u) const& { return has_value() ? std::get<0>(v_) : static_cast<T>(std::forward<U>(u)); }
    template <class U> constexpr T value_or(U&& u) && { return has_value() ? std::get<0>(std::move(v_)) : static_cast<T>(std::forward<U>(u)); }
    template <class G = E> constexpr E error_or(G&& g) const& { return has_value() ? static_cast<E>(std::forward<G>(g)) : error(); }
    template <class... A> T& emplace(A&&... a) { return v_.template emplace<0>(std::forward<A>(a)...); }
    template <class F> constexpr auto and_then(F&& f) & { using R = std::decay_t<std::invoke_result_t<F, T&>>; return has_value() ? std::invoke(std::forward<F>(f), value()) : R(unexpected<E>(error())); }
    template <class F> constexpr auto and_then(F&& f) const& { using R = std::decay_t<std::invoke_result_t<F, const T&>>; return has_value() ? std::invoke(std::forward<F>(f), value()) : R(unexpected<E>(error())); }
    template <class F> constexpr auto and_then(F&& f) && { using R = std::decay_t<std::invoke_result_t<F, T&&>>; return has_value() ? std::invoke(std::forward<F>(f), std::move(*this).value()) : R(unexpected<E>(std::move(*this).error())); }
    template <class F> constexpr auto or_else(F&& f) const& { using R = std::decay_t<std::invoke_result_t<F, const E&>>; return has_value() ? R(value()) : std::invoke(std::forward<F>(f), error()); }
    template <class F> constexpr auto or_else(F&& f) && { using R = std::decay_t<std::invoke_result_t<F, E&&>>; return has_value() ? R(std::move(*this).value()) : std::invoke(std::forward<F>(f), std::move(*this).error()); }
    template <class F> constexpr auto transform(F&& f) const& { using U = std::remove_cv_t<std::invoke_result_t<F, const T&>>; using R = expected<U, E>; if constexpr (std::is_void_v<U>) { if (has_value()) { std::invoke(std::forward<F>(f), value()); return R{}; } return R(unexpected<E>(error())); } else return has_value() ? R(std::invoke(std::forward<F>(f), value())) : R(unexpected<E>(error())); }
    template <class F> constexpr auto transform(F&& f) && { using U = std::remove_cv_t<std::invoke_result_t<F, T&&>>; using R = expected<U, E>; if constexpr (std::is_void_v<U>) { if (has_value()) { std::invoke(std::forward<F>(f), std::move(*this).value()); return R{}; } return R(unexpected<E>(std::move(*this).error())); } else return has_value() ? R(std::invoke(std::forward<F>(f), std::move(*this).value())) : R(unexpected<E>(std::move(*this).error())); }
    template <class F> constexpr auto transform_error(F&& f) const& { using G = std::decay_t<std::invoke_result_t<F, const E&>>; using R = expected<T, G>; return has_value() ? R(value()) : R(unexpected<G>(std::invoke(std::forward<F>(f), error()))); }
    template <class F> constexpr auto transform_error(F&& f) && { using G = std::decay_t<std::invoke_result_t<F, E&&>>; using R = expected<T, G>; return has_value() ? R(std::move(*this).value()) : R(unexpected<G>(std::invoke(std::forward<F>(f), std::move(*this).error()))); }
    template <class F> constexpr auto map(F&& f) && { return std::move(*this).transform(std::forward<F>(f)); }
    template <class U, class G> friend constexpr bool operator==(const expected& a, const expected<U, G>& b) { return a.has_value() == b.has_value() && (a.has_value() ? a.value() == b.value() : a.error() == b.error()); }
    template <class G> friend constexpr bool operator==(const expected& a, const unexpected<G>& b) { return !a.has_value() && a.error() == b.error(); }
    template <class G> friend constexpr bool operator!=(const expected& a, const unexpected<G>& b) { return !(a == b); }
    template <class U, class = std::enable_if_t<!detail::is_expected<std::decay_t<U>>::value && !detail::is_unexpected<std::decay_t<U>>::value>> friend constexpr bool operator==(const expected& a, const U& b) { return a.has_value() && a.value() == b; }
    template <class U, class = std::enable_if_t<!detail::is_expected<std::decay_t<U>>::value && !detail::is_unexpected<std::decay_t<U>>::value>> friend constexpr bool operator!=(const expected& a, const U& b) { return !(a == b); }
    friend constexpr bool operator!=(const expected& a, const expected& b) { return !(a == b); }
  private:
    constexpr void chk() const { if (!has_value()) ::vshim::assert_fail(__FILE__, __LINE__, "expected::value", "has_value()", "value() on error"); }
    constexpr void chke() const { if (has_value()) ::vshim::assert_fail(__FILE__, __LINE__, "expected::error", "!has_value()", "error() on value"); }
};
template <class E>
class expected<void, E>
{
    expected<blank, E> v_;
  public:
    using value_type = void; using error_type = E; using unexpected_type = unexpected<E>;
    constexpr expected() : v_(blank{}) {}
    constexpr expected(const blank&) : v_(blank{}) {}
    constexpr explicit expected(std::in_place_t) : v_(blank{}) {}
    template <class G, class = std::enable_if_t<std::is_constructible_v<E, const G&>>> constexpr expected(const unexpected<G>& u) : v_(u) {}
    template <class G, class = std::enable_if_t<std::is_constructible_v<E, G&&>>> constexpr expected(unexpected<G>&& u) : v_(std::move(u)) {}
    template <class... A> constexpr explicit expected(unexpect_t t, A&&... a) : v_(t, std::forward<A>(a)...) {}
    constexpr bool has_value() const noexcept { return v_.has_value(); }
    constexpr explicit operator bool() const noexcept { return has_value(); }
    constexpr void value() const { v_.value(); }
    constexpr E& error() & { return v_.error(); }
    constexpr const E& error() const& { return v_.error(); }
    constexpr E&& error() && { return std::move(v_).error(); }
    template <class F> constexpr auto and_then(F&& f) const { using R = std::decay_t<std::invoke_result_t<F>>; return has_value() ? std::invoke(std::forward<F>(f)) : R(unexpected<E>(error())); }
    template <class F> constexpr auto or_else(F&& f) const { using R = std::decay_t<std::invoke_result_t<F, const E&>>; return has_value() ? R{} : std::invoke(std::forward<F>(f), error()); }
    template <class F> constexpr auto transform(F&& f) const { using U = std::remove_cv_t<std::invoke_result_t<F>>; using R = expected<U, E>; if constexpr (std::is_void_v<U>) { if (has_value()) { std::invoke(std::forward<F>(f)); return R{}; } return R(unexpected<E>(error())); } else return has_value() ? R(std::invoke(std::forward<F>(f))) : R(unexpected<E>(error())); }
    template <class F> constexpr auto transform_error(F&& f) const { using G = std::decay_t<std::invoke_result_t<F, const E&>>; using R = expected<void, G>; return has_value() ? R{} : R(unexpected<G>(std::invoke(std::forward<F>(f), error()))); }
    friend constexpr bool operator==(const expected& a, const expected& b) { return a.has_value() == b.has_value() && (a.has_value() || a.error() == b.error()); }
    friend constexpr bool operator!=(const expected& a, const expected& b) { return !(a == b); }
    template <class G> friend constexpr bool operator==(const expected& a, const unexpected<G>& b) { return !a.has_value() && a.error() == b.error(); }
};
template <class E> using expected_blank = expected<blank, E>;
}  // namespace score::cpp
