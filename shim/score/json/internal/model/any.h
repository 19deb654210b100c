#pragma once
#include "score/result/result.h"
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
namespace score::json
{
enum class Error : score::result::ErrorCode { kUnknownError, kWrongType, kKeyNotFound, kParsingError, kInvalidFilePath };
class JsonErrorDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "json"; } };
inline constexpr JsonErrorDomain g_json_domain{};
inline score::result::Error MakeError(const Error c, const std::string_view m = "") { return {static_cast<score::result::ErrorCode>(c), g_json_domain, m}; }
class Null { friend bool operator==(const Null&, const Null&) { return true; } };
class Any;
class Object;
using List = std::vector<Any>;
class Any
{
  public:
    Any() = default;
    template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> explicit Any(T v) { if constexpr (std::is_same_v<T, bool>) v_ = v; else if constexpr (std::is_floating_point_v<T>) v_ = static_cast<double>(v); else if constexpr (std::is_signed_v<T>) v_ = static_cast<std::int64_t>(v); else v_ = static_cast<std::uint64_t>(v); }
    explicit Any(std::string s) : v_(std::move(s)) {}
    explicit Any(const char* s) : v_(std::string(s)) {}
    explicit Any(std::string_view s) : v_(std::string(s)) {}
    explicit Any(Null) {}
    inline explicit Any(Object o); inline explicit Any(List l); inline explicit Any(std::unique_ptr<Object> o);
    Any(Any&&) noexcept = default; Any& operator=(Any&&) noexcept = default;
    Any(const Any&) = delete; Any& operator=(const Any&) = delete;
    inline Any& operator=(Object o); inline Any& operator=(List l); template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> Any& operator=(T v) { return *this = Any{v}; } Any& operator=(Null) { v_ = Null{}; return *this; } Any& operator=(std::string s) { v_ = std::move(s); return *this; }
    inline Any CloneByValue() const;
    template <class T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>, bool> = true> Result<T> As() const noexcept
    {
        if constexpr (std::is_integral_v<T>) {
            if (auto* u = std::get_if<std::uint64_t>(&v_)) { if (*u <= static_cast<std::uint64_t>(std::numeric_limits<T>::max())) return Result<T>{static_cast<T>(*u)}; }
            else if (auto* i = std::get_if<std::int64_t>(&v_)) { if constexpr (std::is_signed_v<T>) { if (*i >= static_cast<std::int64_t>(std::numeric_limits<T>::min()) && *i <= static_cast<std::int64_t>(std::numeric_limits<T>::max())) return Result<T>{static_cast<T>(*i)}; } else { if (*i >= 0 && static_cast<std::uint64_t>(*i) <= static_cast<std::uint64_t>(std::numeric_limits<T>::max())) return Result<T>{static_cast<T>(*i)}; } }
        } else { if (auto* u = std::get_if<std::uint64_t>(&v_)) return Result<T>{static_cast<T>(*u)}; if (auto* i = std::get_if<std::int64_t>(&v_)) return Result<T>{static_cast<T>(*i)}; if (auto* d = std::get_if<double>(&v_)) return Result<T>{static_cast<T>(*d)}; }
        return MakeUnexpected(Error::kWrongType);
    }
    template <class T, std::enable_if_t<std::is_same_v<T, bool>, bool> = true> Result<T> As() const noexcept { if (auto* b = std::get_if<bool>(&v_)) return Result<bool>{*b}; return MakeUnexpected(Error::kWrongType); }
    template <class T, std::enable_if_t<std::is_same_v<T, std::string_view>, bool> = true> Result<T> As() const noexcept { if (auto* s = std::get_if<std::string>(&v_)) return Result<T>{std::string_view(*s)}; return MakeUnexpected(Error::kWrongType); }
    template <class T, std::enable_if_t<std::is_same_v<T, std::string>, bool> = true> Result<std::reference_wrapper<const T>> As() const noexcept { if (auto* s = std::get_if<std::string>(&v_)) return Result<std::reference_wrapper<const T>>{std::cref(*s)}; return MakeUnexpected(Error::kWrongType); }
    template <class T, std::enable_if_t<std::is_same_v<T, std::string>, bool> = true> Result<std::reference_wrapper<T>> As() noexcept { if (auto* s = std::get_if<std::string>(&v_)) return Result<std::reference_wrapper<T>>{std::ref(*s)}; return MakeUnexpected(Error::kWrongType); }
    template <class T, std::enable_if_t<std::is_same_v<T, Object> || std::is_same_v<T, List>, bool> = true> Result<std::reference_wrapper<const T>> As() const noexcept { if (auto* s = std::get_if<std::unique_ptr<T>>(&v_)) return Result<std::reference_wrapper<const T>>{std::cref(**s)}; return MakeUnexpected(Error::kWrongType); }
    template <class T, std::enable_if_t<std::is_same_v<T, Object> || std::is_same_v<T, List>, bool> = true> Result<std::reference_wrapper<T>> As() noexcept { if (auto* s = std::get_if<std::unique_ptr<T>>(&v_)) return Result<std::reference_wrapper<T>>{std::ref(**s)}; return MakeUnexpected(Error::kWrongType); }
    template <class T, std::enable_if_t<std::is_same_v<T, Null>, bool> = true> Result<T> As() const noexcept { if (std::holds_alternative<Null>(v_)) return Result<T>{Null{}}; return MakeUnexpected(Error::kWrongType); }
    inline friend bool operator==(const Any& a, const Any& b);
    inline void Write(std::string& o) const;
  private:
    std::variant<Null, bool, std::uint64_t, std::int64_t, double, std::string, std::unique_ptr<Object>, std::unique_ptr<List>> v_{};
};
class Key : public std::string
{
  public:
    Key() = default; Key(std::string s) : std::string(std::move(s)) {} Key(const char* s) : std::string(s) {} Key(std::string_view s) : std::string(s) {}
    std::string_view GetAsStringView() const noexcept { return *this; }
};
class Object : public std::map<Key, Any, std::less<>>
{
  public:
    using M = std::map<Key, Any, std::less<>>; using M::M;
    Any& operator[](std::string_view k) { return M::operator[](Key(k)); }
    Any& operator[](const std::string& k) { return M::operator[](Key(k)); }
    Any& operator[](const char* k) { return M::operator[](Key(k)); }
};
inline Any::Any(Object o) : v_(std::make_unique<Object>(std::move(o))) {}
inline Any::Any(List l) : v_(std::make_unique<List>(std::move(l))) {}
inline Any::Any(std::unique_ptr<Object> o) : v_(std::move(o)) {}
inline Any& Any::operator=(Object o) { v_ = std::make_unique<Object>(std::move(o)); return *this; }
inline Any& Any::operator=(List l) { v_ = std::make_unique<List>(std::move(l)); return *this; }
inline Any Any::CloneByValue() const { Any r; std::visit([&](auto& x) { using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X, std::unique_ptr<Object>>) { Object o; for (auto& [k, v] : *x) o[k] = v.CloneByValue(); r = Any{std::move(o)}; } else if constexpr (std::is_same_v<X, std::unique_ptr<List>>) { List l; for (auto& v : *x) l.push_back(v.CloneByValue()); r = Any{std::move(l)}; } else r.v_ = x; }, v_); return r; }
inline bool operator==(const Any& a, const Any& b) { std::string x, y; a.Write(x); b.Write(y); return x == y; }
inline void WriteStr(std::string& o, const std::string& s) { o += '"'; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else o += c; } o += '"'; }
inline void Any::Write(std::string& o) const
{
    std::visit([&](auto& x) { using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, Null>) o += "null"; else if constexpr (std::is_same_v<X, bool>) o += x ? "true" : "false"; else if constexpr (std::is_same_v<X, std::string>) WriteStr(o, x);
        else if constexpr (std::is_same_v<X, std::unique_ptr<Object>>) { o += '{'; bool f = true; for (auto& [k, v] : *x) { if (!f) o += ','; f = false; WriteStr(o, k); o += ':'; v.Write(o); } o += '}'; }
        else if constexpr (std::is_same_v<X, std::unique_ptr<List>>) { o += '['; bool f = true; for (auto& v : *x) { if (!f) o += ','; f = false; v.Write(o); } o += ']'; }
        else o += std::to_string(x); }, v_);
}
}  // namespace score::json
