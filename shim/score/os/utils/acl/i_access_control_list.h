#pragma once
#include "score/os/acl.h"
#include <vector>
namespace score::os
{
class IAccessControlList
{
  public:
    using UserIdentifier = uid_t;
    virtual ~IAccessControlList() = default;
    virtual score::cpp::expected_blank<Error> AllowUser(const UserIdentifier, const Acl::Permission) = 0;
    virtual score::cpp::expected<bool, Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const = 0;
    virtual score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(const Acl::Permission) const noexcept = 0;
};
}  // namespace score::os
