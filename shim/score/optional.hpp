#pragma once
#include <optional>
namespace score::cpp { using std::optional; using std::nullopt; using std::nullopt_t; using std::make_optional; }
