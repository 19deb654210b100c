#pragma once
#include <new>
namespace score::utils
{
template <class T> class StaticDestructionGuard
{
  public:
    StaticDestructionGuard() noexcept = default;
    static T& GetStorage() noexcept { alignas(T) static unsigned char buf[sizeof(T)]; static T* t = new (buf) T(); return *t; }
};
}  // namespace score::utils
