#pragma once
#include "score/memory_resource.hpp"
#include <vector>
namespace score::cpp::pmr { using std::pmr::vector; }
