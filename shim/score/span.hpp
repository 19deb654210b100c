#pragma once
#include "score/assert.hpp"
#include <cstdint>
#include <array>
#include <cstddef>
#include <iterator>
#include <limits>
#include <memory>
#include <type_traits>
namespace score::cpp
{
inline constexpr std::size_t dynamic_extent = std::numeric_limits<std::size_t>::max();
template <class T, std::size_t N = dynamic_extent> class span
{
  public:
    using element_type = T; using value_type = std::remove_cv_t<T>; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using pointer = T*; using reference = T&; using iterator = T*; using const_iterator = const T*; using reverse_iterator = std::reverse_iterator<iterator>;
    constexpr span() noexcept = default;
    constexpr span(T* p, size_type n) noexcept : p_{p}, n_{n} {}
    constexpr span(T* b, T* e) noexcept : p_{b}, n_{static_cast<size_type>(e - b)} {}
    template <std::size_t M> constexpr span(T (&a)[M]) noexcept : p_{a}, n_{M} {}
    template <class U, std::size_t M, class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>> constexpr span(std::array<U, M>& a) noexcept : p_{a.data()}, n_{M} {}
    template <class U, std::size_t M, class = std::enable_if_t<std::is_convertible_v<const U (*)[], T (*)[]>>> constexpr span(const std::array<U, M>& a) noexcept : p_{a.data()}, n_{M} {}
    template <class U, std::size_t M, class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>> constexpr span(const span<U, M>& o) noexcept : p_{o.data()}, n_{o.size()} {}
    template <class C, class D = decltype(std::data(std::declval<C&>())), class = decltype(std::size(std::declval<C&>())), class = std::enable_if_t<std::is_convertible_v<std::remove_pointer_t<D> (*)[], T (*)[]> && !std::is_array_v<std::remove_reference_t<C>>>> constexpr span(C& c) noexcept : p_{std::data(c)}, n_{static_cast<size_type>(std::size(c))} {}
    template <class C, class D = decltype(std::data(std::declval<const C&>())), class = std::enable_if_t<std::is_convertible_v<std::remove_pointer_t<D> (*)[], T (*)[]> && !std::is_array_v<C>>, class = void> constexpr span(const C& c) noexcept : p_{std::data(c)}, n_{static_cast<size_type>(std::size(c))} {}
    constexpr pointer data() const noexcept { return p_; }
    constexpr size_type size() const noexcept { return n_; }
    constexpr size_type size_bytes() const noexcept { return n_ * sizeof(T); }
    constexpr bool empty() const noexcept { return n_ == 0U; }
    constexpr reference operator[](size_type i) const { if (i >= n_) ::vshim::assert_fail(__FILE__, __LINE__, "span::operator[]", "i < size()", ""); return p_[i]; }
    constexpr reference at(size_type i) const { return (*this)[i]; }
    constexpr reference front() const { return (*this)[0]; }
    constexpr reference back() const { return (*this)[n_ - 1]; }
    constexpr iterator begin() const noexcept { return p_; }
    constexpr iterator end() const noexcept { return p_ + n_; }
    constexpr const_iterator cbegin() const noexcept { return p_; }
    constexpr const_iterator cend() const noexcept { return p_ + n_; }
    constexpr span<T> first(size_type n) const { return subspan(0, n); }
    constexpr span<T> last(size_type n) const { return subspan(n_ - n, n); }
    constexpr span<T> subspan(size_type o, size_type n = dynamic_extent) const { if (o > n_ || (n != dynamic_extent && n > n_ - o)) ::vshim::assert_fail(__FILE__, __LINE__, "span::subspan", "in range", ""); return {p_ + o, n == dynamic_extent ? n_ - o : n}; }
  private:
    T* p_{nullptr};
    size_type n_{0U};
};
template <class T, std::size_t N> span(T (&)[N]) -> span<T>;
template <class T, std::size_t N> span(std::array<T, N>&) -> span<T>;
template <class T, std::size_t N> span(const std::array<T, N>&) -> span<const T>;
template <class T> span(T*, std::size_t) -> span<T>;
template <class C> span(C&) -> span<std::remove_pointer_t<decltype(std::data(std::declval<C&>()))>>;
template <class C> span(const C&) -> span<std::remove_pointer_t<decltype(std::data(std::declval<const C&>()))>>;
template <class T> span<const std::byte> as_bytes(span<T> s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size_bytes()}; }
template <class S> constexpr decltype(auto) at(S& s, std::ptrdiff_t i) { if (i < 0 || static_cast<std::size_t>(i) >= static_cast<std::size_t>(s.size())) ::vshim::assert_fail(__FILE__, __LINE__, "at", "index", "out of bounds"); return s[i]; }
template <class S> constexpr decltype(auto) at(const S& s, std::ptrdiff_t i) { if (i < 0 || static_cast<std::size_t>(i) >= static_cast<std::size_t>(s.size())) ::vshim::assert_fail(__FILE__, __LINE__, "at", "index", "out of bounds"); return s[i]; }
}  // namespace score::cpp
