#pragma once
#include "score/language/safecpp/safe_math/safe_math.h"
#include <atomic>
namespace score::safe_atomics
{
template <class T> Result<T> TryAtomicAdd(std::atomic<T>& a, const T v, const std::size_t max_retries = 10U)
{
    for (std::size_t i = 0; i < max_retries; ++i) { T cur = a.load(); auto n = safe_math::Add<T>(cur, v); if (!n.has_value()) return MakeUnexpected<T>(n.error()); if (a.compare_exchange_strong(cur, n.value())) return Result<T>{cur}; }
    return MakeUnexpected(safe_math::ErrorCode::kUnexpectedError);
}
}  // namespace score::safe_atomics
