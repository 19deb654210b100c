#pragma once
#include <string_view>
namespace score::cpp { using std::string_view; }
