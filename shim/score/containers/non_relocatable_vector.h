#pragma once
#include "score/containers/dynamic_array.h"
namespace score::containers
{
template <class T, class Alloc = std::allocator<T>> class NonRelocatableVector
{
    using Tr = std::allocator_traits<Alloc>;
  public:
    using value_type = T; using allocator_type = Alloc; using size_type = std::size_t; using difference_type = std::ptrdiff_t; using reference = T&; using const_reference = const T&;
    using pointer = typename Tr::pointer; using const_pointer = typename Tr::const_pointer; using iterator = T*; using const_iterator = const T*;
    explicit NonRelocatableVector(size_type cap, const Alloc& a = Alloc()) : a_(a), cap_(cap), n_(0), p_(nullptr) { if (cap_ > 0) p_ = Tr::allocate(a_, cap_); }
    NonRelocatableVector(const NonRelocatableVector&) = delete; NonRelocatableVector& operator=(const NonRelocatableVector&) = delete;
    NonRelocatableVector(NonRelocatableVector&& o) noexcept : a_(o.a_), cap_(o.cap_), n_(o.n_), p_(o.p_) { o.cap_ = 0; o.n_ = 0; o.p_ = nullptr; }
    NonRelocatableVector& operator=(NonRelocatableVector&& o) noexcept { if (this != &o) { destroy(); cap_ = o.cap_; n_ = o.n_; p_ = o.p_; o.cap_ = 0; o.n_ = 0; o.p_ = nullptr; } return *this; }
    ~NonRelocatableVector() { destroy(); }
    template <class... A> reference emplace_back(A&&... x) { if (n_ >= cap_) ::vshim::assert_fail(__FILE__, __LINE__, "NonRelocatableVector::emplace_back", "size() < capacity()", "overflow"); Tr::construct(a_, raw() + n_, std::forward<A>(x)...); return raw()[n_++]; }
    void push_back(const T& v) { emplace_back(v); } void push_back(T&& v) { emplace_back(std::move(v)); }
    reference at(size_type i) { chk(i); return raw()[i]; } const_reference at(size_type i) const { chk(i); return raw()[i]; }
    reference operator[](size_type i) { return raw()[i]; } const_reference operator[](size_type i) const { return raw()[i]; }
    reference front() { return at(0); } const_reference front() const { return at(0); } reference back() { return at(n_ - 1); } const_reference back() const { return at(n_ - 1); }
    T* data() noexcept { return raw(); } const T* data() const noexcept { return raw(); }
    iterator begin() noexcept { return raw(); } const_iterator begin() const noexcept { return raw(); } const_iterator cbegin() const noexcept { return raw(); }
    iterator end() noexcept { return raw() + n_; } const_iterator end() const noexcept { return raw() + n_; } const_iterator cend() const noexcept { return raw() + n_; }
    bool empty() const noexcept { return n_ == 0; } size_type size() const noexcept { return n_; } size_type capacity() const noexcept { return cap_; }
    void clear() noexcept { for (size_type i = 0; i < n_; ++i) Tr::destroy(a_, raw() + i); n_ = 0; }
    void pop_back() noexcept { Tr::destroy(a_, raw() + --n_); }
    Alloc get_allocator() const { return a_; }
  private:
    void destroy() { clear(); if (cap_ > 0 && p_ != nullptr) Tr::deallocate(a_, p_, cap_); }
    void chk(size_type i) const { if (i >= n_) ::vshim::assert_fail(__FILE__, __LINE__, "NonRelocatableVector::at", "i < size()", "out of bounds"); }
    T* raw() noexcept { return vdetail::to_raw(p_); } const T* raw() const noexcept { return vdetail::to_raw(p_); }
    Alloc a_; size_type cap_; size_type n_; pointer p_;
};
}  // namespace score::containers
