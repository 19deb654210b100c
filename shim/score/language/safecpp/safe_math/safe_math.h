#pragma once
#include "score/result/result.h"
#include <cstdint>
#include <limits>
#include <type_traits>
namespace score::safe_math
{
enum class ErrorCode : score::result::ErrorCode { kUnexpectedError, kExceedsNumericLimits, kDivideByZero, kImplicitPrecisionLoss };
class SafeMathErrorDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "safe_math"; } };
inline constexpr SafeMathErrorDomain g_safe_math_domain{};
inline score::result::Error MakeError(const ErrorCode c, const std::string_view m = "") { return {static_cast<score::result::ErrorCode>(c), g_safe_math_domain, m}; }
enum class ReturnMode { kReturnError, kAbortOnError };
// Exact result in 128 bit, then range-checked against the result type.
template <class R, class V> constexpr Result<R> Narrow(V v) { if (v < static_cast<V>(std::numeric_limits<R>::min()) || v > static_cast<V>(std::numeric_limits<R>::max())) return MakeUnexpected(ErrorCode::kExceedsNumericLimits); return Result<R>{static_cast<R>(v)}; }
using wide = __int128;
template <class R, class T> constexpr Result<R> CastImpl(T v) { if constexpr (std::is_floating_point_v<R> || std::is_floating_point_v<T>) return Result<R>{static_cast<R>(v)}; else return Narrow<R>(static_cast<wide>(v)); }
template <class R, class T> constexpr Result<R> Cast(T v) { return CastImpl<R>(v); }
template <class R, ReturnMode M, class T, class = std::enable_if_t<M == ReturnMode::kAbortOnError>> constexpr R Cast(T v) { return CastImpl<R>(v).value(); }
template <class A, class B> using Common = std::common_type_t<A, B>;
template <class R = void, class A, class B, class RR = std::conditional_t<std::is_void_v<R>, Common<A, B>, R>> constexpr Result<RR> Add(A a, B b) { return Narrow<RR>(static_cast<wide>(a) + static_cast<wide>(b)); }
template <class R = void, class A, class B, class RR = std::conditional_t<std::is_void_v<R>, Common<A, B>, R>> constexpr Result<RR> Subtract(A a, B b) { return Narrow<RR>(static_cast<wide>(a) - static_cast<wide>(b)); }
template <class R = void, class A, class B, class RR = std::conditional_t<std::is_void_v<R>, Common<A, B>, R>> constexpr Result<RR> Multiply(A a, B b) { wide r{}; if (__builtin_mul_overflow(static_cast<wide>(a), static_cast<wide>(b), &r)) return MakeUnexpected(ErrorCode::kExceedsNumericLimits); return Narrow<RR>(r); }
template <class R = void, class A, class B, class RR = std::conditional_t<std::is_void_v<R>, Common<A, B>, R>> constexpr Result<RR> Divide(A a, B b) { if (b == 0) return MakeUnexpected(ErrorCode::kDivideByZero); if (static_cast<wide>(a) % static_cast<wide>(b) != 0) return MakeUnexpected(ErrorCode::kImplicitPrecisionLoss); return Narrow<RR>(static_cast<wide>(a) / static_cast<wide>(b)); }
template <ReturnMode M, class A, class B, class = std::enable_if_t<M == ReturnMode::kAbortOnError>> constexpr Common<A, B> Multiply(A a, B b) { return Narrow<Common<A, B>>(static_cast<wide>(a) * static_cast<wide>(b)).value(); }
template <ReturnMode M, class A, class B, class = std::enable_if_t<M == ReturnMode::kAbortOnError>> constexpr Common<A, B> Add(A a, B b) { return Narrow<Common<A, B>>(static_cast<wide>(a) + static_cast<wide>(b)).value(); }
template <ReturnMode M, class A, class B, class = std::enable_if_t<M == ReturnMode::kAbortOnError>> constexpr Common<A, B> Subtract(A a, B b) { return Narrow<Common<A, B>>(static_cast<wide>(a) - static_cast<wide>(b)).value(); }
template <class A> constexpr std::make_unsigned_t<A> Abs(A a) { const wide w = static_cast<wide>(a); return static_cast<std::make_unsigned_t<A>>(w < 0 ? -w : w); }
}  // namespace score::safe_math
