#pragma once
#include "score/os/utils/acl/i_access_control_list.h"
#include <functional>
#include <map>
#include <set>
namespace score::os
{
// Access control lists live in memory here (keyed by file descriptor); the properties do not depend on kernel ACLs.
class AccessControlList final : public IAccessControlList
{
  public:
    explicit AccessControlList(Acl::FileDescriptor fd) : fd_(fd) {}
    score::cpp::expected_blank<Error> AllowUser(const UserIdentifier u, const Acl::Permission p) override { db()[fd_][p].insert(u); if (hook()) hook()(fd_, static_cast<unsigned>(u), p); return score::cpp::blank{}; }
    score::cpp::expected<bool, Error> VerifyMaskPermissions(const std::vector<Acl::Permission>&) const override { return true; }
    score::cpp::expected<std::vector<UserIdentifier>, Error> FindUserIdsWithPermission(const Acl::Permission p) const noexcept override { auto& s = db()[fd_][p]; return std::vector<UserIdentifier>(s.begin(), s.end()); }
    static std::map<int, std::map<Acl::Permission, std::set<UserIdentifier>>>& db() { static std::map<int, std::map<Acl::Permission, std::set<UserIdentifier>>> d; return d; }
    static std::function<void(int, unsigned, Acl::Permission)>& hook() { static std::function<void(int, unsigned, Acl::Permission)> h; return h; }
  private:
    Acl::FileDescriptor fd_;
};
}  // namespace score::os
