#pragma once
// In-memory file system: everything the code under test creates, removes or lists lives inside the harness.
#include "score/filesystem/path.h"
#include "score/result/result.h"
#include "score/os/stat.h"
#include "score/os/unistd.h"
#include "score/os/utils/inotify/inotify_instance.h"
#include <functional>
#include <ios>
#include <iterator>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace vshim
{
struct Node { bool dir{false}; unsigned perms{0}; };
struct Vfs
{
    std::map<std::string, Node> nodes;
    std::function<bool(const char* op, const std::string& path)> fault;  // harness decides whether an operation fails
    std::function<void(const char* op, const std::string& path)> step;  // called before each mutating operation (crash point)
    bool lenient{false};   // removing what does not exist succeeds (a harness disposing of a dead process)
    std::function<void()> look;  // called before each reading operation
    static Vfs& get() { static Vfs v; return v; }
    void clear() { nodes.clear(); fault = nullptr; step = nullptr; look = nullptr; lenient = false; }
    static std::string norm(const std::string& p) { std::string r = std::filesystem::path(p).lexically_normal().native(); while (r.size() > 1 && r.back() == '/') r.pop_back(); return r; }
    static std::string parent(const std::string& p) { auto i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
    bool has(const std::string& p) { return nodes.count(norm(p)) != 0; }
    bool isdir(const std::string& p) { auto n = norm(p); if (n == "/") return true; auto it = nodes.find(n); return it != nodes.end() && it->second.dir; }
    unsigned perms(const std::string& p) { auto it = nodes.find(norm(p)); return it == nodes.end() ? 0755u : it->second.perms; }
    bool mkfile(const std::string& p0) { auto p = norm(p0); if (step) step("create", p); if (fault && fault("create", p)) return false; if (!isdir(parent(p)) || isdir(p)) return false; bool nw = nodes.emplace(p, Node{false, 0600}).second; if (nw) score::os::InotifyBus::get().notify(parent(p), p.substr(p.rfind('/') + 1), true, false); return true; }
    bool mkdirs(const std::string& p0, unsigned perms) { auto p = norm(p0); if (p == "/" || isdir(p)) return true; if (step) step("mkdir", p); if (fault && fault("mkdir", p)) return false; if (has(p)) return false; if (!mkdirs(parent(p), perms)) return false; nodes[p] = Node{true, perms}; score::os::InotifyBus::get().notify(parent(p), p.substr(p.rfind('/') + 1), true, true); return true; }
    bool remove(const std::string& p0) { auto p = norm(p0); if (step) step("remove", p); if (fault && fault("remove", p)) return false; auto it = nodes.find(p); if (it == nodes.end()) return lenient; bool d = it->second.dir; if (d) { auto pre = p + "/"; auto nx = nodes.upper_bound(pre); if (nx != nodes.end() && nx->first.compare(0, pre.size(), pre) == 0) return false; } nodes.erase(it); score::os::InotifyBus::get().notify(parent(p), p.substr(p.rfind('/') + 1), false, d); return true; }
    std::vector<std::string> list(const std::string& p0) { if (look) look(); auto pre = norm(p0) + "/"; std::vector<std::string> r; for (auto it = nodes.lower_bound(pre); it != nodes.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) if (it->first.find('/', pre.size()) == std::string::npos) r.push_back(it->first); return r; }
};
}  // namespace vshim
namespace score::filesystem
{
enum class ErrorCode : score::result::ErrorCode { kNotImplemented, kFileOrDirectoryDoesNotExist, kCouldNotRemoveFileOrDirectory, kCouldNotRetrieveStatus, kCouldNotCreateDirectory, kCouldNotSetPermissions, kCouldNotOpenFileStream, kFileExists };
class FsErrorDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "filesystem"; } };
inline constexpr FsErrorDomain g_fs_domain{};
inline score::result::Error MakeError(const ErrorCode c, const std::string_view m = "") { return {static_cast<score::result::ErrorCode>(c), g_fs_domain, m}; }
enum class FileType { kNone, kNotFound, kUnknown, kRegular, kDirectory, kSymlink };
using Perms = score::os::Stat::Mode;
enum class PermOptions { kReplace, kAdd, kRemove };
class FileStatus { public: FileStatus() = default; explicit FileStatus(FileType t, Perms p = Perms::kUnknown) : t_(t), p_(p) {} FileType Type() const noexcept { return t_; } Perms Permissions() const noexcept { return p_; } private: FileType t_{FileType::kNone}; Perms p_{Perms::kUnknown}; };
class DirectoryEntry
{
  public:
    DirectoryEntry() = default; explicit DirectoryEntry(Path p) : p_(std::move(p)) {}
    const Path& GetPath() const noexcept { return p_; } operator const Path&() const noexcept { return p_; }
    Result<FileStatus> Status() const noexcept { auto& v = vshim::Vfs::get(); if (v.look) v.look(); if (!v.has(p_.Native())) return FileStatus{FileType::kNotFound}; return FileStatus{v.isdir(p_.Native()) ? FileType::kDirectory : FileType::kRegular, static_cast<Perms>(v.perms(p_.Native()))}; }
    bool IsDirectory() const { return vshim::Vfs::get().isdir(p_.Native()); }
    bool IsRegularFile() const { return vshim::Vfs::get().has(p_.Native()) && !IsDirectory(); }
  private:
    Path p_;
};
class DirectoryIterator
{
  public:
    using iterator_category = std::input_iterator_tag; using value_type = DirectoryEntry; using difference_type = std::ptrdiff_t; using pointer = const DirectoryEntry*; using reference = const DirectoryEntry&;
    DirectoryIterator() = default;
    explicit DirectoryIterator(const Path& p) : e_(std::make_shared<std::vector<DirectoryEntry>>()) { for (auto& s : vshim::Vfs::get().list(p.Native())) e_->emplace_back(Path{s}); }
    reference operator*() const { return (*e_)[i_]; } pointer operator->() const { return &(*e_)[i_]; }
    DirectoryIterator& operator++() { ++i_; return *this; }
    friend bool operator==(const DirectoryIterator& a, const DirectoryIterator& b) { return a.end_() == b.end_() && (a.end_() || a.i_ == b.i_); } friend bool operator!=(const DirectoryIterator& a, const DirectoryIterator& b) { return !(a == b); }
  private:
    bool end_() const { return !e_ || i_ >= e_->size(); }
    std::shared_ptr<std::vector<DirectoryEntry>> e_; std::size_t i_{0};
};
inline DirectoryIterator begin(DirectoryIterator i) { return i; } inline DirectoryIterator end(const DirectoryIterator&) { return {}; }
class IStandardFilesystem
{
  public:
    virtual ~IStandardFilesystem() = default;
    virtual Result<bool> Exists(const Path& p) const { return vshim::Vfs::get().has(p.Native()); }
    virtual Result<FileStatus> Status(const Path& p) const { return DirectoryEntry{p}.Status(); }
    virtual Result<void> Remove(const Path& p) const { if (!vshim::Vfs::get().remove(p.Native())) return MakeUnexpected(ErrorCode::kCouldNotRemoveFileOrDirectory); return {}; }
    virtual Result<void> RemoveAll(const Path& p) const { for (auto& s : vshim::Vfs::get().list(p.Native())) RemoveAll(Path{s}); vshim::Vfs::get().remove(p.Native()); return {}; }
    virtual Result<void> Permissions(const Path& p, Perms m, PermOptions) const { auto& v = vshim::Vfs::get(); if (v.step) v.step("chmod", p.Native()); if (v.fault && v.fault("chmod", p.Native())) return MakeUnexpected(ErrorCode::kCouldNotSetPermissions); auto it = v.nodes.find(vshim::Vfs::norm(p.Native())); if (it == v.nodes.end()) return MakeUnexpected(ErrorCode::kFileOrDirectoryDoesNotExist); it->second.perms = static_cast<unsigned>(m); return {}; }
    virtual Result<bool> IsDirectory(const Path& p) const { return vshim::Vfs::get().isdir(p.Native()); }
    virtual Result<void> CreateDirectories(const Path& p) const { if (!vshim::Vfs::get().mkdirs(p.Native(), 0777)) return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory); return {}; }
};
class IFileUtils
{
  public:
    virtual ~IFileUtils() = default;
    virtual Result<void> CreateDirectories(const Path& p, os::Stat::Mode m) const { if (!vshim::Vfs::get().mkdirs(p.Native(), static_cast<unsigned>(m))) return MakeUnexpected(ErrorCode::kCouldNotCreateDirectory); return {}; }
};
class IFileFactory
{
  public:
    virtual ~IFileFactory() = default;
    virtual Result<std::unique_ptr<std::iostream>> Open(const Path& p, std::ios_base::openmode) { if (!vshim::Vfs::get().mkfile(p.Native())) return MakeUnexpected(ErrorCode::kCouldNotOpenFileStream); return Result<std::unique_ptr<std::iostream>>{std::make_unique<std::stringstream>()}; }
};
struct Filesystem { std::shared_ptr<IFileUtils> utils; std::shared_ptr<IFileFactory> streams; std::shared_ptr<IStandardFilesystem> standard; };
class FilesystemFactory { public: Filesystem CreateInstance() const { return {std::make_shared<IFileUtils>(), std::make_shared<IFileFactory>(), std::make_shared<IStandardFilesystem>()}; } };
}  // namespace score::filesystem
