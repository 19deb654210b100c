#pragma once
#include "score/os/errno.h"
#include "score/os/ObjectSeam.h"
#include <sys/types.h>
#include <vector>
namespace score::os
{
class Acl
{
  public:
    using FileDescriptor = std::int32_t; using UserIdentifier = std::int64_t;
    enum class Permission { kRead, kWrite, kExecute };
};
}  // namespace score::os
