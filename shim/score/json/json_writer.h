#pragma once
#include "score/json/internal/model/any.h"
namespace score::json
{
class JsonWriter
{
  public:
    Result<std::string> ToBuffer(const Object& o) { std::string s{"{"}; bool f = true; for (auto& [k, v] : o) { if (!f) s += ','; f = false; WriteStr(s, k); s += ':'; v.Write(s); } s += '}'; return Result<std::string>{s}; }
    Result<std::string> ToBuffer(const Any& a) { std::string s; a.Write(s); return Result<std::string>{s}; }
    Result<std::string> ToBuffer(const List& l) { std::string s{"["}; bool f = true; for (auto& v : l) { if (!f) s += ','; f = false; v.Write(s); } s += ']'; return Result<std::string>{s}; }
};
}  // namespace score::json
