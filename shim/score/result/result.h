#pragma once
#include "score/expected.hpp"
#include "score/utility.hpp"
#include "score/result/error.h"
#include <optional>
namespace score
{
template <class T> using Result = score::cpp::expected<T, result::Error>;
using ResultBlank = Result<score::cpp::blank>;
namespace result { using Blank = score::cpp::blank; }
using Blank = score::cpp::blank;
using score::cpp::unexpect;
template <class E, class = std::enable_if_t<std::is_enum_v<E>>>
inline auto MakeUnexpected(const E code, const std::string_view user_message = {}) { return score::cpp::unexpected<result::Error>{MakeError(code, user_message)}; }
class Unexpected : public score::cpp::unexpected<result::Error>
{
  public:
    template <class E, class = std::enable_if_t<std::is_enum_v<E>>> explicit Unexpected(const E code, const std::string_view m = {}) : score::cpp::unexpected<result::Error>{MakeError(code, m)} {}
    explicit Unexpected(result::Error e) : score::cpp::unexpected<result::Error>{e} {}
};
template <class T, class F> inline std::optional<T> ResultToOptionalOrElse(Result<T> r, F&& f) { if (r.has_value()) return std::optional<T>{std::move(r).value()}; std::forward<F>(f)(r.error()); return std::nullopt; }
template <class T> inline std::optional<T> ResultToOptional(Result<T> r) { if (r.has_value()) return std::optional<T>{std::move(r).value()}; return std::nullopt; }
inline auto MakeUnexpected(result::Error e) { return score::cpp::unexpected<result::Error>{e}; }
template <class T, class = std::enable_if_t<!std::is_enum_v<T>>, class E = int> inline Result<T> MakeUnexpected(const result::Error& e) { return score::cpp::unexpected<result::Error>{e}; }
template <class T, class E, class = std::enable_if_t<!std::is_enum_v<T> && std::is_enum_v<E>>> inline Result<T> MakeUnexpected(const E code, const std::string_view m = {}) { return score::cpp::unexpected<result::Error>{MakeError(code, m)}; }
}  // namespace score
