#pragma once
#include "score/assert.hpp"
#include <cstddef>
#include <iterator>
#include <memory>
#include <utility>
namespace score::containers
{
namespace vdetail { template <class P> auto* to_raw(const P& p) { if constexpr (std::is_pointer_v<P>) return p; else return p.get(); } }
template <class T, class Alloc = std::allocator<T>> class DynamicArray final
{
    using Tr = std::allocator_traits<Alloc>;
  public:
    using value_type = T; using allocator_type = Alloc; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using reference = T&; using const_reference = const T&;
    using pointer = typename Tr::pointer; using const_pointer = typename Tr::const_pointer; using iterator = T*; using const_iterator = const T*;
    explicit DynamicArray(size_type n, const Alloc& a = Alloc()) : a_(a), n_(n), p_(nullptr) { alloc(); for (size_type i = 0; i < n_; ++i) Tr::construct(a_, raw() + i); }
    DynamicArray(size_type n, const T& v, const Alloc& a = Alloc()) : a_(a), n_(n), p_(nullptr) { alloc(); for (size_type i = 0; i < n_; ++i) Tr::construct(a_, raw() + i, v); }
    template <class It, class = typename std::iterator_traits<It>::iterator_category> DynamicArray(It b, It e, const Alloc& a = Alloc()) : a_(a), n_(static_cast<size_type>(std::distance(b, e))), p_(nullptr) { alloc(); size_type i = 0; for (; b != e; ++b) Tr::construct(a_, raw() + i++, *b); }
    DynamicArray(const DynamicArray& o) : a_(o.a_), n_(o.n_), p_(nullptr) { alloc(); for (size_type i = 0; i < n_; ++i) Tr::construct(a_, raw() + i, o.raw()[i]); }
    DynamicArray(DynamicArray&& o) noexcept : a_(o.a_), n_(o.n_), p_(o.p_) { o.n_ = 0; o.p_ = nullptr; }
    DynamicArray& operator=(DynamicArray&& o) noexcept { if (this != &o) { destroy(); n_ = o.n_; p_ = o.p_; o.n_ = 0; o.p_ = nullptr; } return *this; }
    DynamicArray& operator=(const DynamicArray&) = delete;
    ~DynamicArray() { destroy(); }
    reference at(size_type i) { chk(i); return raw()[i]; }
    const_reference at(size_type i) const { chk(i); return raw()[i]; }
    reference operator[](size_type i) { return raw()[i]; }
    const_reference operator[](size_type i) const { return raw()[i]; }
    reference front() { return at(0); } const_reference front() const { return at(0); }
    reference back() { return at(n_ - 1); } const_reference back() const { return at(n_ - 1); }
    T* data() noexcept { return n_ == 0 ? nullptr : raw(); } const T* data() const noexcept { return n_ == 0 ? nullptr : raw(); }
    iterator begin() noexcept { return data(); } const_iterator begin() const noexcept { return data(); } const_iterator cbegin() const noexcept { return data(); }
    iterator end() noexcept { return data() + n_; } const_iterator end() const noexcept { return data() + n_; } const_iterator cend() const noexcept { return data() + n_; }
    bool empty() const noexcept { return n_ == 0; } size_type size() const noexcept { return n_; }
    Alloc get_allocator() const { return a_; }
  private:
    void alloc() { if (n_ > 0) p_ = Tr::allocate(a_, n_); }
    void destroy() { if (n_ > 0 && p_ != nullptr) { for (size_type i = 0; i < n_; ++i) Tr::destroy(a_, raw() + i); Tr::deallocate(a_, p_, n_); } }
    void chk(size_type i) const { if (i >= n_) ::vshim::assert_fail(__FILE__, __LINE__, "DynamicArray::at", "i < size()", "out of bounds"); }
    T* raw() noexcept { return vdetail::to_raw(p_); } const T* raw() const noexcept { return vdetail::to_raw(p_); }
    Alloc a_; size_type n_; pointer p_;
};
}  // namespace score::containers
