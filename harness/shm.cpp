// link: -Wl,--wrap=_ZN5score6memory6shared22MemoryResourceRegistry11getInstanceEv
// M04: shared-memory objects appear complete and are created by exactly one party.
#include "procs.h"
#include "fakeos.h"

namespace
{
namespace ms = score::memory::shared;
using Res = std::shared_ptr<ms::ISharedMemoryResource>;
const char* kPath = "/object";
constexpr std::size_t kSize = 256;
enum Op { kCreate, kOpen, kOpenRo, kEither };

struct Bed
{
    fos::Os os;
    int begun{0}, finished{0};          // ghost: initialisations of an object
    std::map<fos::Inode*, int> creations;
    std::vector<std::pair<int, Res>> live;
    std::vector<fos::Inode*> seen;
    bool disturbed{false};              // a crash or an injected fault happened
    int perm{0};
    Bed() { procs::reset(); }
    fos::Inode* object() { auto i = os.k.names.find(std::string("S") + kPath); return i == os.k.names.end() ? nullptr : i->second.get(); }
    bool lock_exists() { return os.k.exists(std::string("F/tmp") + kPath + "_lock"); }
    ms::ISharedMemoryFactory::UserPermissions permissions() const
    {
        using P = ms::ISharedMemoryResource;
        if (perm == 1) return P::WorldReadable{};
        if (perm == 2) return P::WorldWritable{};
        return ms::ISharedMemoryFactory::UserPermissionsMap{};
    }
    unsigned want_mode() const { return perm == 1 ? 0644u : perm == 2 ? 0666u : 0600u; }
    ms::ISharedMemoryFactory::InitializeCallback cb()
    {
        return [this](Res r) {
            mc::ghost(this);
            ++begun;
            auto* i = os.k.fds.at(r->GetFileDescriptor()).ino;
            ++creations[i];
            auto* w = static_cast<std::uint64_t*>(r->allocate(16, 8));
            w[0] = 0x11; mc::point("initialising"); mc::ghost(this); w[1] = 0x22; mc::point("initialising"); mc::ghost(this);
            w[0] = 0x33;
            ++finished;
        };
    }
    // what a party that succeeded may rely on
    void examine(const Res& r, const char* who)
    {
        mc::ghost(this);
        auto it = os.k.fds.find(r->GetFileDescriptor());
        MC_CHECK(it != os.k.fds.end() && it->second.proc == mc::cur_proc(), who << " has a resource without an open object");
        if (it == os.k.fds.end()) return;
        auto* i = it->second.ino;
        MC_CHECK(creations[i] == 1, "the object was initialised " << creations[i] << " times when " << who << " obtained it");
        const auto* w = static_cast<const std::uint64_t*>(r->getUsableBaseAddress());
        MC_CHECK(w[0] == 0x33 && w[1] == 0x22, who << " obtained an object that is not completely initialised");
        const std::size_t len = static_cast<std::size_t>(static_cast<const char*>(r->getEndAddress()) - static_cast<const char*>(r->getUsableBaseAddress()));
        MC_CHECK(len == kSize, who << " obtained " << len << " usable bytes");
        MC_CHECK(i->size >= kSize && static_cast<std::size_t>(static_cast<const char*>(r->getEndAddress()) - static_cast<const char*>(r->getBaseAddress())) <= i->size, who << " maps more than the object has");
        MC_CHECK(i->mode == want_mode(), "the object has mode " << std::oct << i->mode);
        MC_CHECK(r->GetUserAllocatedBytes() == 16, r->GetUserAllocatedBytes() << " bytes accounted");
        MC_CHECK(r->getPath() && *r->getPath() == kPath, "wrong path");
        seen.push_back(i);
    }
    Res run(Op op, std::optional<std::vector<uid_t>> allowed = std::nullopt)
    {
        auto& f = procs::factory();
        std::optional<score::cpp::span<const uid_t>> a; if (allowed) a = score::cpp::span<const uid_t>{allowed->data(), allowed->size()};
        switch (op)
        {
            case kCreate: return f.Create(kPath, cb(), kSize, permissions(), false);
            case kOpen: return f.Open(kPath, true, a);
            case kOpenRo: return f.Open(kPath, false, a);
            default: { return f.CreateOrOpen(kPath, cb(), kSize, {permissions(), a}, false); }
        }
    }
    static const char* name(Op o) { const char* n[] = {"create", "open", "open read-only", "create-or-open"}; return n[o]; }
};

struct Party { int proc; Op op; bool done{false}; bool ok{false}; };
// Several processes at once; `crashes`/faults as configured. Afterwards a clean-up and a new creation must work.
void contend(const char* name, mc::Config cfg, std::vector<Op> ops, int fault_kind = 0)
{
    mc::explore(name, cfg, [=] {
        Bed b; b.perm = 2;
        std::vector<Party> ps;
        bool faulted = false;
        if (fault_kind)
        {
            b.os.k.faults_left = 1;
            b.os.k.fault_errno = [&](const std::string& c, const std::string&) {
                if (c == "open") return EMFILE; if (c == "chmod") return EPERM; if (c == "shm_open") return EACCES; if (c == "fstat") return EIO;
                if (c == "ftruncate") return ENOSPC; if (c == "mmap") return ENOMEM; if (c == "stat") return EACCES; return 0; };
        }
        for (Op o : ops) { Party p{mc::new_proc(), o}; if (cfg.crashes) mc::crashable(p.proc); if (cfg.crashes || fault_kind) mc::expect_death_ok(p.proc); ps.push_back(p); }
        for (auto& p : ps)
            mc::spawn([&] {
                Res r = b.run(p.op);
                mc::ghost(&b);
                p.ok = r != nullptr;
                if (r) b.examine(r, Bed::name(p.op));
                p.done = true;
                mc::point("using"); mc::ghost(&b);
                r.reset();
            }, Bed::name(p.op), p.proc);
        mc::join_all();
        mc::ghost(&b);
        faulted = fault_kind && b.os.k.faults_left == 0;
        bool crashed = false, died = false; for (auto& p : ps) { crashed = crashed || mc::proc_crashed(p.proc); died = died || (mc::proc_dead(p.proc) && !mc::proc_crashed(p.proc)); }
        const bool dist = crashed || faulted;
        MC_CHECK(!died || dist, "a process terminated although nothing failed");
        for (std::size_t i = 1; i < b.seen.size(); ++i) MC_CHECK(b.seen[i] == b.seen[0], "the parties have different objects");
        MC_CHECK(b.begun <= 1 || dist, b.begun << " initialisations of one object");
        MC_CHECK(b.finished <= 1, b.finished << " complete creations of one object");
        if (!dist)
        {
            bool any_create = false, any_ok = false, others_open = false;
            for (auto& p : ps) { any_create = any_create || p.op == kCreate || p.op == kEither; any_ok = any_ok || (p.ok && (p.op == kCreate || p.op == kEither)); others_open = others_open || p.op == kOpen || p.op == kOpenRo; MC_CHECK(p.done, "a party did not return"); }
            // an opener holds the lock for a moment, in which a creation is refused
            MC_CHECK(!any_create || any_ok || (others_open && b.begun == 0), "nobody created the object");
            for (auto& p : ps) if (p.op == kEither) MC_CHECK(p.ok, "create-or-open failed");
            MC_CHECK(any_ok == (b.finished == 1), "initialisations: " << b.finished);
            MC_CHECK(!b.lock_exists(), "the lock file is left behind");
            MC_CHECK((b.object() != nullptr) == any_ok, "object left behind or missing");
            MC_CHECK(b.os.k.open_fds() == 0, "files stay open");
        }
        else if (!crashed)
        {
            // A failing call may end a process, but not leave the object usable and incomplete.
            if (!died) MC_CHECK(!b.lock_exists(), "the lock file is left behind");
        }
        if (!b.lock_exists() && b.object()) MC_CHECK(b.creations[b.object()] == 1 && b.finished == 1, "an incomplete object is open to everybody");
        // somebody starts again
        const int again = mc::new_proc();
        bool ok = false; b.begun = b.finished = 0; b.os.k.faults_left = 0;
        mc::spawn([&] { procs::factory().RemoveStaleArtefacts(kPath); Res r = b.run(kCreate); ok = r != nullptr; if (r) b.examine(r, "the next creator"); }, "next", again);
        mc::join_all(); mc::ghost(&b);
        MC_CHECK(ok, "the object cannot be created any more");
        const int reader = mc::new_proc(); ok = false;
        mc::spawn([&] { Res r = b.run(kOpen); ok = r != nullptr; if (r) b.examine(r, "the next reader"); }, "reader", reader);
        mc::join_all(); mc::ghost(&b);
        MC_CHECK(ok, "the object cannot be opened any more");
        std::string o; for (auto& p : ps) o += p.ok ? "1" : mc::proc_dead(p.proc) ? "x" : "0"; mc::outcome(o);
    });
}
// Two threads of one process use one factory.
void threads(const char* name, mc::Config cfg, Op a, Op c, bool exists)
{
    mc::explore(name, cfg, [=] {
        Bed b; b.perm = 2; Res keep;
        if (exists) { const int p = mc::new_proc(); mc::spawn([&] { keep = b.run(kCreate); mc::block_until([] { return true; }); Res k = std::move(keep); k.reset(); }, "provider", p); mc::join_all(); }
        bool ok[2]{}; Res r[2]; const Op op[2] = {a, c};
        const int p = mc::new_proc();
        int t[2];
        for (int i = 0; i < 2; ++i) t[i] = mc::spawn([&, i] { Res x = b.run(op[i]); mc::ghost(&b); ok[i] = x != nullptr; if (x) { b.examine(x, Bed::name(op[i])); } r[i] = x; }, Bed::name(op[i]), p);
        mc::join_all(); mc::ghost(&b);
        MC_CHECK(b.begun <= 1 && b.begun == b.finished, b.begun << " initialisations");
        if (ok[0] && ok[1]) MC_CHECK(r[0].get() == r[1].get(), "two threads of one process have different resources of one object");
        for (int i = 0; i < 2; ++i) if (op[i] == kEither) MC_CHECK(ok[i], "create-or-open failed");
        if (op[0] == kCreate && op[1] == kCreate) MC_CHECK(ok[0] != ok[1], "two threads created one object");
        mc::spawn([&] { r[0].reset(); r[1].reset(); }, "release", p);
        mc::join_all();
        MC_CHECK(b.os.k.open_fds() == 0, "files stay open");
        mc::outcome(std::to_string(ok[0]) + std::to_string(ok[1]));
    });
}
// One thread lets go of a resource while another one of the same process asks for it.
void release_open(const char* name, mc::Config cfg, Op again)
{
    mc::explore(name, cfg, [=] {
        Bed b; b.perm = 2; Res keep;
        mc::spawn([&] { keep = b.run(kCreate); }, "provider", mc::new_proc());
        mc::join_all();
        const int p = mc::new_proc();
        Res mine; bool ok = false; mc::expect_death_ok(p);
        mc::spawn([&] { mine = b.run(kOpen); }, "open", p); mc::join_all();
        mc::spawn([&] { mine.reset(); }, "release", p);
        mc::spawn([&] { Res r = b.run(again); ok = r != nullptr; if (r) b.examine(r, "the second thread"); r.reset(); }, "open again", p);
        mc::join_all(); mc::ghost(&b);
        if (mc::proc_dead(p)) { mc::violation("a process that opens an object while another of its threads lets go of it terminates"); return; }
        MC_CHECK(ok, "the object cannot be opened");
    });
}
// ---- every sequence of operations of two processes with different users
struct Seq final : mc::System
{
    static constexpr int NP = 2, NH = 2, kPerProc = 12;
    struct H { bool on{false}; int obj{0}; bool rw{false}; };
    struct Obj { int id{0}; int perm{0}; unsigned uid{0}; std::size_t size{0}; };
    fos::Os os; Res h[NP][NH]; H m[NP][NH]; Obj o; int next{1}; bool removed[NP]{};
    int cb_calls{0}; int who{0};
    int initialised_as{0};
    Seq() { procs::reset(); os.k.points = false; }
    ~Seq() override { for (int p = 0; p < NP; ++p) { act(p); for (auto& x : h[p]) x.reset(); } procs::as() = -1; }
    void act(int p) { procs::as() = p; os.k.default_uid = 1000u + static_cast<unsigned>(p); who = p; }
    static std::string name(int op)
    {
        const char* n[] = {"creates (user only)", "creates (world-readable)", "creates (world-writable)", "creates or opens (world-writable)", "creates or opens, owner must be the other", "opens rw", "opens ro", "opens ro, owner must be itself", "opens ro, owner may be the other", "drops", "removes", "cleans up"};
        return "process " + std::to_string(op / kPerProc) + " " + n[op % kPerProc];
    }
    int holding(int p) { for (auto& x : m[p]) if (x.on) return x.obj; return 0; }
    bool rw_of(int p) { for (auto& x : m[p]) if (x.on) return x.rw; return false; }
    static bool may(const Obj& x, unsigned uid, bool w) { if (x.uid == uid) return true; return w ? x.perm == 2 : x.perm >= 1; }
    bool apply(int op) override
    {
        if (next < 0) return false;   // somebody died
        const int p = op / kPerProc, k = op % kPerProc; act(p);
        const unsigned uid = 1000u + static_cast<unsigned>(p);
        auto& f = procs::factory();
        if (k >= 9)
        {
            if (k == 9) { for (int i = NH - 1; i >= 0; --i) if (m[p][i].on) { h[p][i].reset(); m[p][i] = {}; if (!holding(p)) removed[p] = false; return true; } return false; }
            if (k == 10) { f.Remove(kPath); if (holding(p) && !removed[p]) { removed[p] = true; if (o.id) o = {}; } return true; }
            if (holding(p) && !removed[p]) return false;
            f.RemoveStaleArtefacts(kPath); o = {}; return true;
        }
        if (removed[p]) return false;   // a process first lets go of what it removed
        int slot = -1; for (int i = 0; i < NH; ++i) if (!m[p][i].on) { slot = i; break; }
        if (slot < 0) return false;
        const bool create = k < 3, either = k == 3 || k == 4, rw = create || either || k == 5;
        const int perm = k < 3 ? k : 2;
        std::vector<uid_t> al; std::optional<score::cpp::span<const uid_t>> a;
        if (k == 7) a = score::cpp::span<const uid_t>{al.data(), al.size()};
        if (k == 4 || k == 8) { al = {static_cast<uid_t>(1000 + 1 - p), 77}; a = score::cpp::span<const uid_t>{al.data(), al.size()}; }
        using P = ms::ISharedMemoryResource;
        ms::ISharedMemoryFactory::UserPermissions perms = ms::ISharedMemoryFactory::UserPermissionsMap{};
        if (perm == 1) perms = P::WorldReadable{}; else if (perm == 2) perms = P::WorldWritable{};
        const std::size_t size = p == 0 ? 128 : 512;
        cb_calls = 0; const int id = next;
        auto cb = [this, id](Res r) { ++cb_calls; *static_cast<int*>(r->allocate(4, 4)) = id; };
        // expectations
        bool expect_new = false, expect_ok = false, expect_dead = false;
        const int had = holding(p);
        if (create) { expect_new = expect_ok = !had && !o.id; }
        else if (had) expect_ok = true;
        else if (!o.id) { expect_new = expect_ok = either; }
        else { expect_ok = may(o, uid, rw); expect_dead = either && !expect_ok; }
        const unsigned owner = expect_new ? uid : had ? held_uid(had) : o.uid;
        bool uid_ok = true;
        if (a && expect_ok) { uid_ok = owner == uid; for (auto u : al) uid_ok = uid_ok || u == owner; }
        if (expect_dead) { bool died = mc::dies([&] { f.CreateOrOpen(kPath, cb, size, {perms, a}, false); }); MC_CHECK(died, name(op) << ": an object that cannot be opened was not refused"); next = -1; return true; }
        Res r;
        if (create) r = f.Create(kPath, cb, size, perms, false);
        else if (either) r = f.CreateOrOpen(kPath, cb, size, {perms, a}, false);
        else r = f.Open(kPath, rw, a);
        MC_CHECK((r != nullptr) == (expect_ok && uid_ok), name(op) << (r ? " succeeded" : " failed"));
        MC_CHECK(cb_calls == (expect_new ? 1 : 0), name(op) << " initialised " << cb_calls << " times");
        if (mc::failed()) return true;
        if (expect_new) { o = {id, perm, uid, size}; uids[id] = uid; sizes[id] = size; perms_[id] = perm; ++next; }
        if (!r) return expect_new;   // refused: nothing kept (a new object stays)
        h[p][slot] = r; m[p][slot] = {true, had ? had : o.id, had ? rw_of(p) : rw};
        check(p, slot);
        return true;
    }
    std::map<int, unsigned> uids; std::map<int, std::size_t> sizes; std::map<int, int> perms_;
    unsigned held_uid(int id) { return uids[id]; }
    void check(int p, int s)
    {
        auto& r = h[p][s]; auto& x = m[p][s];
        MC_CHECK(*static_cast<int*>(r->getUsableBaseAddress()) == x.obj, "a process sees the content of another object");
        const std::size_t len = static_cast<std::size_t>(static_cast<const char*>(r->getEndAddress()) - static_cast<const char*>(r->getUsableBaseAddress()));
        MC_CHECK(len == sizes[x.obj], len << " usable bytes instead of " << sizes[x.obj]);
        auto* i = os.k.fds.at(r->GetFileDescriptor()).ino;
        const unsigned want = perms_[x.obj] == 0 ? 0600u : perms_[x.obj] == 1 ? 0644u : 0666u;
        MC_CHECK(i->mode == want, "mode " << std::oct << i->mode << " instead of " << want);
        MC_CHECK(i->uid == uids[x.obj], "wrong owner");
        for (int t = 0; t < NH; ++t) if (t != s && m[p][t].on && m[p][t].obj == x.obj) MC_CHECK(h[p][t].get() == r.get(), "one process maps one object twice");
    }
    std::string canon() override
    {
        for (int p = 0; p < NP; ++p) for (int s = 0; s < NH; ++s) if (m[p][s].on) check(p, s);
        auto i = os.k.names.find(std::string("S") + kPath);
        MC_CHECK((i != os.k.names.end()) == (o.id != 0), "the object " << (o.id ? "is gone" : "still exists"));
        MC_CHECK(!os.k.exists(std::string("F/tmp") + kPath + "_lock"), "the lock file is left behind");
        int fds = 0; for (int p = 0; p < NP; ++p) fds += holding(p) ? 1 : 0;
        if (next > 0) MC_CHECK(os.k.open_fds() == fds, os.k.open_fds() << " open files, " << fds << " resources");
        std::ostringstream c; c << (next < 0);
        std::map<int, int> rk; auto R = [&](int v) { if (!v) return 0; return rk.emplace(v, static_cast<int>(rk.size()) + 1).first->second; };
        c << R(o.id) << o.perm << o.uid << o.size;
        for (int p = 0; p < NP; ++p) { c << "|" << removed[p]; for (auto& x : m[p]) c << x.on << R(x.obj) << x.rw << (x.obj ? uids[x.obj] : 0) << (x.obj ? perms_[x.obj] : 0); }
        return c.str();
    }
    void finish() override
    {
        for (int p = 0; p < NP; ++p) { act(p); for (auto& x : h[p]) x.reset(); }
        if (next > 0) MC_CHECK(os.k.open_fds() == 0, "files stay open");
        procs::as() = -1;
    }
};
// Every permission under every usual mask
void modes(const char* name)
{
    mc::explore(name, {0}, [] {
        Bed b; b.os.k.points = false;
        const unsigned masks[] = {0, 002, 022, 027, 077, 0777}; b.os.k.umask_ = masks[mc::choose(5, "umask")];
        b.perm = mc::choose(3, "permissions");
        const bool either = mc::choose(2);
        Res r = b.run(either ? kEither : kCreate);
        MC_CHECK(r != nullptr, "creation failed");
        if (r) b.examine(r, "the creator");
        auto rw = b.run(kOpen); MC_CHECK(rw == r, "a second mapping in one process");
        r.reset(); rw.reset();
        b.os.k.uid_of_proc[0] = 2000;
        r = b.run(kOpen); MC_CHECK((r != nullptr) == (b.perm == 2), "another user " << (r ? "can" : "cannot") << " write"); r.reset();
        r = b.run(kOpenRo); MC_CHECK((r != nullptr) == (b.perm >= 1), "another user " << (r ? "can" : "cannot") << " read"); r.reset();
    });
}
}  // namespace
MC_CASE(M04, histories) { mc::BfsConfig c; c.max_depth = mc::tier(9, 14); mc::bfs("histories", c, Seq::NP * Seq::kPerProc, Seq::name, [] { return std::make_unique<Seq>(); }); }
MC_CASE(M04, modes) { modes("modes"); }
MC_CASE(M04, release_open) { release_open("release_open", {mc::tier(2, 4)}, kOpen); }
MC_CASE(M04, two_create) { contend("two_create", {mc::tier(5, 8), 0, 1}, {kCreate, kCreate}); }
MC_CASE(M04, create_open) { contend("create_open", {mc::tier(4, 6), 0, 1}, {kCreate, kOpen}); }
MC_CASE(M04, either_either) { contend("either_either", {mc::tier(3, 6), 0, 1}, {kEither, kEither}); }
MC_CASE(M04, either_open) { contend("either_open", {mc::tier(4, 6), 0, 1}, {kEither, kOpen}); }
MC_CASE(M04, either_create) { contend("either_create", {mc::tier(4, 6), 0, 1}, {kEither, kCreate}); }
MC_CASE(M04, three) { contend("three", {mc::tier(2, 4), 0, 0}, {kEither, kCreate, kOpen}); }
MC_CASE(M04, crash_create_open) { contend("crash_create_open", {mc::tier(2, 4), 1, 0}, {kCreate, kOpen}); }
MC_CASE(M04, crash_either) { contend("crash_either", {mc::tier(2, 4), 1, 0}, {kEither, kEither}); }
MC_CASE(M04, crash_create_create) { contend("crash_create_create", {mc::tier(2, 4), 1, 0}, {kCreate, kCreate}); }
MC_CASE(M04, fault_create_open) { contend("fault_create_open", {mc::tier(2, 4), 0, 0}, {kCreate, kOpen}, 1); }
MC_CASE(M04, fault_either) { contend("fault_either", {mc::tier(2, 4), 0, 0}, {kEither, kEither}, 1); }
MC_CASE(M04, threads) { threads("threads_open_open", {mc::tier(2, 4)}, kOpen, kOpen, true); threads("threads_create_create", {mc::tier(2, 4)}, kCreate, kCreate, false); threads("threads_either_either", {mc::tier(2, 4)}, kEither, kEither, false); threads("threads_create_open", {mc::tier(2, 4)}, kCreate, kOpen, false); }
