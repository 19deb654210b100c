#pragma once
#include <filesystem>
#include <string>
#include <ostream>
#include "score/mw/log/log_stream.h"
namespace score::filesystem
{
class Path
{
  public:
    Path() = default; Path(const std::string& s) : p_(s) {} Path(const char* s) : p_(s) {} Path(std::string_view s) : p_(std::string(s)) {} Path(std::string&& s) : p_(std::move(s)) {}
    const std::string& Native() const noexcept { return p_.native(); } const char* CStr() const noexcept { return p_.c_str(); } operator std::string() const { return p_.native(); }
    bool Empty() const { return p_.empty(); }
    Path Filename() const { return Path{p_.filename().native()}; } Path ParentPath() const { return Path{p_.parent_path().native()}; } Path RelativePath() const { return Path{p_.relative_path().native()}; } Path Extension() const { return Path{p_.extension().native()}; }
    Path LexicallyNormal() const { return Path{p_.lexically_normal().native()}; } bool IsAbsolute() const { return p_.is_absolute(); }
    Path& operator/=(const Path& o) { p_ /= o.p_; return *this; }
    friend Path operator/(const Path& a, const Path& b) { Path r{a}; r /= b; return r; }
    friend bool operator==(const Path& a, const Path& b) { return a.p_ == b.p_; } friend bool operator!=(const Path& a, const Path& b) { return !(a == b); } friend bool operator<(const Path& a, const Path& b) { return a.p_ < b.p_; }
    friend std::ostream& operator<<(std::ostream& o, const Path& p) { return o << p.Native(); } friend score::mw::log::LogStream& operator<<(score::mw::log::LogStream& o, const Path&) { return o; }
    std::filesystem::path p_;
};
}  // namespace score::filesystem
template <> struct std::hash<score::filesystem::Path> { std::size_t operator()(const score::filesystem::Path& p) const noexcept { return std::hash<std::string>{}(p.Native()); } };
