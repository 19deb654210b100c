#pragma once
#include <cstddef>
#include <iterator>
#include <utility>
namespace score::containers
{
template <class Tag, bool> struct vlist_node { vlist_node* prev{nullptr}; vlist_node* next{nullptr}; };
template <class Tag = void> class intrusive_list_element : public vlist_node<Tag, true>
{
  public:
    intrusive_list_element() noexcept = default;
    intrusive_list_element(const intrusive_list_element&) noexcept {} intrusive_list_element& operator=(const intrusive_list_element&) noexcept { return *this; }
};
template <class T, class Tag = void> class intrusive_list
{
    using N = vlist_node<Tag, true>;
  public:
    template <class V> class iter
    {
      public:
        using iterator_category = std::bidirectional_iterator_tag; using value_type = V; using difference_type = std::ptrdiff_t; using pointer = V*; using reference = V&;
        iter() = default; explicit iter(N* n) : n_(n) {}
        V& operator*() const { return static_cast<V&>(static_cast<intrusive_list_element<Tag>&>(*n_)); } V* operator->() const { return &**this; }
        iter& operator++() { n_ = n_->next; return *this; } iter operator++(int) { auto c = *this; ++*this; return c; }
        iter& operator--() { n_ = n_->prev; return *this; } iter operator--(int) { auto c = *this; --*this; return c; }
        friend bool operator==(iter a, iter b) { return a.n_ == b.n_; } friend bool operator!=(iter a, iter b) { return a.n_ != b.n_; }
        operator iter<const V>() const { return iter<const V>(n_); }
        N* n_{nullptr};
    };
    using iterator = iter<T>; using const_iterator = iter<T>; using value_type = T; using size_type = std::size_t;
    intrusive_list() noexcept { r_.prev = r_.next = &r_; }
    intrusive_list(const intrusive_list&) = delete; intrusive_list& operator=(const intrusive_list&) = delete;
    ~intrusive_list() { clear(); }
    bool empty() const noexcept { return r_.next == &r_; }
    size_type size() const noexcept { size_type c = 0; for (N* n = r_.next; n != &r_; n = n->next) ++c; return c; }
    iterator begin() noexcept { return iterator(r_.next); } iterator end() noexcept { return iterator(&r_); }
    const_iterator begin() const noexcept { return const_iterator(r_.next); } const_iterator end() const noexcept { return const_iterator(const_cast<N*>(&r_)); }
    const_iterator cbegin() const noexcept { return begin(); } const_iterator cend() const noexcept { return end(); }
    T& front() { return *begin(); } T& back() { return *iterator(r_.prev); }
    void push_front(T& t) { insert(begin(), t); } void push_back(T& t) { insert(end(), t); }
    void pop_front() { erase(begin()); } void pop_back() { erase(iterator(r_.prev)); }
    iterator insert(const_iterator p, T& t) { N* n = static_cast<intrusive_list_element<Tag>*>(&t); n->next = p.n_; n->prev = p.n_->prev; n->prev->next = n; n->next->prev = n; return iterator(n); }
    iterator erase(const_iterator p) { N* n = p.n_; N* x = n->next; n->prev->next = n->next; n->next->prev = n->prev; n->prev = n->next = nullptr; return iterator(x); }
    static iterator iterator_to(T& t) { return iterator(static_cast<intrusive_list_element<Tag>*>(&t)); }
    void clear() noexcept { while (!empty()) pop_front(); }
    template <class P> void remove_if(P p) { for (auto it = begin(); it != end();) it = p(*it) ? erase(it) : ++it; }
    template <class It, class = decltype(*std::declval<It>())> void assign(It b, It e) { clear(); for (; b != e; ++b) push_back(*b); }
    template <class P, class D> void remove_and_dispose_if(P p, D d) { intrusive_list t; for (auto it = begin(); it != end();) { if (p(*it)) { T& x = *it; it = erase(it); t.push_back(x); } else ++it; } while (!t.empty()) { T& x = t.front(); t.pop_front(); d(&x); } }
    void swap(intrusive_list& o) noexcept { intrusive_list t; t.splice(t.end(), *this); splice(end(), o); o.splice(o.end(), t); }
    void splice(const_iterator p, intrusive_list& o) { if (o.empty()) return; N* f = o.r_.next; N* l = o.r_.prev; o.r_.next = o.r_.prev = &o.r_; f->prev = p.n_->prev; l->next = p.n_; f->prev->next = f; p.n_->prev = l; }
    void splice(const_iterator p, intrusive_list&, const_iterator it) { N* n = it.n_; if (p.n_ == n || p.n_ == n->next) return; n->prev->next = n->next; n->next->prev = n->prev; n->next = p.n_; n->prev = p.n_->prev; n->prev->next = n; n->next->prev = n; }
    void splice(const_iterator p, intrusive_list& o, const_iterator b, const_iterator e) { while (b != e) { auto nx = b; ++nx; splice(p, o, b); b = nx; } }
  private:
    N r_;
};
}  // namespace score::containers
