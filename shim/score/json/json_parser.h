#pragma once
#include "score/result/result.h"
#include "score/json/internal/model/any.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
namespace score::json
{
class JsonParser
{
  public:
    Result<Any> FromBuffer(std::string_view s) const noexcept { P p{s.data(), s.data() + s.size()}; Any a; if (!p.val(a) || (p.ws(), p.b != p.e)) return MakeUnexpected(Error::kParsingError); return Result<Any>{std::move(a)}; }
    Result<Any> FromFile(std::string_view f) const noexcept { std::ifstream i{std::string(f)}; if (!i) return MakeUnexpected(Error::kInvalidFilePath); std::stringstream ss; ss << i.rdbuf(); return FromBuffer(ss.str()); }
  private:
    struct P
    {
        const char* b; const char* e; int depth{0};
        void ws() { while (b != e && (*b == ' ' || *b == '\n' || *b == '\t' || *b == '\r')) ++b; }
        bool lit(const char* l) { auto n = std::string_view(l).size(); if (static_cast<std::size_t>(e - b) < n || std::string_view(b, n) != l) return false; b += n; return true; }
        bool str(std::string& o) { if (b == e || *b != '"') return false; ++b; while (b != e && *b != '"') { if (*b == '\\') { if (++b == e) return false; switch (*b) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'u': { if (e - b < 5) return false; unsigned c = static_cast<unsigned>(std::strtoul(std::string(b + 1, 4).c_str(), nullptr, 16)); if (c < 0x80) o += static_cast<char>(c); else if (c < 0x800) { o += static_cast<char>(0xC0 | (c >> 6)); o += static_cast<char>(0x80 | (c & 63)); } else { o += static_cast<char>(0xE0 | (c >> 12)); o += static_cast<char>(0x80 | ((c >> 6) & 63)); o += static_cast<char>(0x80 | (c & 63)); } b += 4; break; } default: o += *b; } ++b; } else o += *b++; } if (b == e) return false; ++b; return true; }
        bool val(Any& a) { ws(); if (b == e || ++depth > 200) return false; bool r = val2(a); --depth; return r; }
        bool val2(Any& a)
        {
            if (*b == '{') { ++b; Object o; ws(); if (b != e && *b == '}') { ++b; a = Any{std::move(o)}; return true; } for (;;) { ws(); std::string k; if (!str(k)) return false; ws(); if (b == e || *b != ':') return false; ++b; Any v; if (!val(v)) return false; o[k] = std::move(v); ws(); if (b == e) return false; if (*b == ',') { ++b; continue; } if (*b == '}') { ++b; break; } return false; } a = Any{std::move(o)}; return true; }
            if (*b == '[') { ++b; List l; ws(); if (b != e && *b == ']') { ++b; a = Any{std::move(l)}; return true; } for (;;) { Any v; if (!val(v)) return false; l.push_back(std::move(v)); ws(); if (b == e) return false; if (*b == ',') { ++b; continue; } if (*b == ']') { ++b; break; } return false; } a = Any{std::move(l)}; return true; }
            if (*b == '"') { std::string s; if (!str(s)) return false; a = Any{std::move(s)}; return true; }
            if (lit("true")) { a = Any{true}; return true; }
            if (lit("false")) { a = Any{false}; return true; }
            if (lit("null")) { a = Any{Null{}}; return true; }
            const char* s = b; bool fl = false; if (b != e && *b == '-') ++b; while (b != e && ((*b >= '0' && *b <= '9') || *b == '.' || *b == 'e' || *b == 'E' || *b == '+' || *b == '-')) { if (*b == '.' || *b == 'e' || *b == 'E') fl = true; ++b; }
            if (b == s) return false; std::string n(s, b); if (fl) a = Any{std::strtod(n.c_str(), nullptr)}; else if (n[0] == '-') a = Any{static_cast<std::int64_t>(std::strtoll(n.c_str(), nullptr, 10))}; else a = Any{static_cast<std::uint64_t>(std::strtoull(n.c_str(), nullptr, 10))};
            return true;
        }
    };
};
namespace literals { inline Any operator""_json(const char* s, std::size_t n) { return std::move(JsonParser{}.FromBuffer({s, n})).value(); } }
inline Any operator""_json(const char* s, std::size_t n) { return std::move(JsonParser{}.FromBuffer({s, n})).value(); }
}  // namespace score::json
