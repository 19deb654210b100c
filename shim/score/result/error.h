#pragma once
#include "score/result/error_code.h"
#include "score/result/error_domain.h"
#include <type_traits>
#include <string_view>
#include <ostream>
#include "score/mw/log/logging.h"
namespace score::result
{
class Error
{
  public:
    constexpr Error(const ErrorCode code, const ErrorDomain& domain, const std::string_view user_message = {}) noexcept : code_{code}, domain_{&domain}, user_message_{user_message} {}
    constexpr const ErrorCode& operator*() const noexcept { return code_; }
    std::string_view Message() const noexcept { return domain_->MessageFor(code_); }
    constexpr std::string_view UserMessage() const noexcept { return user_message_; }
    template <class E> bool IsDomain() const noexcept { return dynamic_cast<const E*>(domain_) != nullptr; }
    const ErrorDomain& Domain() const noexcept { return *domain_; }
    friend constexpr bool operator==(const Error& l, const Error& r) noexcept { return l.code_ == r.code_ && l.domain_ == r.domain_; }
    friend constexpr bool operator!=(const Error& l, const Error& r) noexcept { return !(l == r); }
    template <class E, class = std::enable_if_t<std::is_enum_v<E>>> friend bool operator==(const Error& l, const E& e) noexcept { return l == MakeError(e, {}); }
    template <class E, class = std::enable_if_t<std::is_enum_v<E>>> friend bool operator!=(const Error& l, const E& e) noexcept { return !(l == e); }
    friend std::ostream& operator<<(std::ostream& o, const Error& e) { return o << "Error " << e.code_ << ": " << e.Message() << " " << e.user_message_; }
    friend score::mw::log::LogStream& operator<<(score::mw::log::LogStream& o, const Error&) { return o; }
  private:
    ErrorCode code_;
    const ErrorDomain* domain_;
    std::string_view user_message_;
};
}  // namespace score::result
