#pragma once
#include "score/stop_token.hpp"
#include "score/memory.hpp"
namespace score::concurrency
{
class Task { public: virtual ~Task() = default; virtual void operator()(const score::cpp::stop_token) = 0; };
}
