#pragma once
#include "score/memory_resource.hpp"
#include <string>
namespace score::cpp::pmr { using std::pmr::string; }
