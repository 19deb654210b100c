#pragma once
#include "score/memory_resource.hpp"
#include <memory>
namespace score::cpp::pmr
{
// unique_ptr whose deleter destroys through the stored function (works across base conversions)
template <class T> struct deleter
{
    void (*del)(void*, memory_resource*){nullptr}; void* obj{nullptr}; memory_resource* r{nullptr};
    deleter() = default;
    deleter(void (*d)(void*, memory_resource*), void* o, memory_resource* m) : del(d), obj(o), r(m) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> deleter(const deleter<U>& o) : del(o.del), obj(o.obj), r(o.r) {}
    void operator()(T*) const { if (del) del(obj, r); }
};
template <class T> using unique_ptr = std::unique_ptr<T, deleter<T>>;
template <class T, class... A> unique_ptr<T> make_unique(memory_resource* r, A&&... a)
{
    void* m = r->allocate(sizeof(T), alignof(T));
    T* t = new (m) T(std::forward<A>(a)...);
    return unique_ptr<T>{t, deleter<T>{[](void* o, memory_resource* mr) { static_cast<T*>(o)->~T(); mr->deallocate(o, sizeof(T), alignof(T)); }, t, r}};
}
template <class T, class... A> std::shared_ptr<T> make_shared(memory_resource* r, A&&... a) { return std::allocate_shared<T>(polymorphic_allocator<T>{r}, std::forward<A>(a)...); }
}  // namespace score::cpp::pmr
