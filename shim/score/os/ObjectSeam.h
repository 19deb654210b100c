#pragma once
#include "score/memory.hpp"
#include <cerrno>
namespace score::os
{
// Nothing in the sandbox is ever touched: without an in-memory operating system every call fails.
template <class... A> inline int refuse(const A&...) { errno = ENOSYS; return -1; }
// Replaceable singleton: a harness may install its own in-memory operating system.
template <class T> class ObjectSeam
{
  public:
    static void set_testing_instance(T& t) { inst() = &t; }
    static void restore_instance() { inst() = nullptr; }
    static T& instance() noexcept { if (inst() != nullptr) return *inst(); return T::real(); }
  private:
    static T*& inst() { static T* p = nullptr; return p; }
};
}  // namespace score::os
