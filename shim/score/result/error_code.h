#pragma once
#include <cstdint>
namespace score::result { using ErrorCode = std::int32_t; }
