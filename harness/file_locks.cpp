// M05: advisory file locks and lock files.
#include "fakeos.h"
#include "score/memory/shared/flock/exclusive_flock_mutex.h"
#include "score/memory/shared/flock/flock_mutex_and_lock.h"
#include "score/memory/shared/flock/shared_flock_mutex.h"
#include "score/memory/shared/lock_file.h"
#include <optional>

namespace
{
using namespace score::memory::shared;
using Ex = FlockMutexAndLock<ExclusiveFlockMutex>;
using Sh = FlockMutexAndLock<SharedFlockMutex>;
const char* kPath[2] = {"/tmp/a_lock", "/tmp/b_lock"};

// ---- every sequence of operations on a few lock files and locks
struct Seq final : mc::System
{
    struct File { bool exists{false}; int ino{0}; };
    struct LF { enum K { None, Live, Moved } k{None}; int path{0}; int ino{0}; bool owns{false}; };
    struct LK { int file{-1}; bool ex{false}; bool held{false}; int ino{0}; int fdtag{0}; };
    static constexpr int NF = 2, NL = 2;
    fos::Os os;
    std::optional<LockFile> f[NF];
    std::unique_ptr<Ex> ex[NL]; std::unique_ptr<Sh> sh[NL];
    File m_file[2]; LF m[NF]; LK l[NL]; int next_ino{1};
    int tag[NF]{}; int next_tag{1};
    std::map<int, int> locked;                  // open file (tag) -> lock kind
    Seq() { os.k.points = false; }
    bool lock_on(int fi) const { for (auto& x : l) if (x.file >= 0 && x.fdtag == tag[fi]) return true; return false; }
    void drop(int fi)
    {
        if (m[fi].k == LF::Live) { locked.erase(tag[fi]); if (m[fi].owns) m_file[m[fi].path].exists = false; }
        m[fi] = LF{};
    }
    // ops per file i: 0..1 Create(path) 2..5 CreateOrOpen(path,own) 6..7 Open(path) 8 TakeOwnership 9 move-construct into other
    // 10 move-assign to other 11 destroy 12 self move ; then per lock j: file(2) x kind(2) make, trylock, destroy
    static int n_ops() { return NF * 13 + NL * (NF * 2 + 2); }
    static std::string name(int op)
    {
        if (op < NF * 13)
        {
            int i = op / 13, o = op % 13; std::string p = "file" + std::to_string(i) + " ";
            const char* n[] = {"create a", "create b", "create-or-open a", "create-or-open a owning", "create-or-open b", "create-or-open b owning", "open a", "open b", "take ownership", "move-construct other", "move-assign to other", "destroy", "self-assign"};
            return p + n[o];
        }
        op -= NF * 13; int j = op / (NF * 2 + 2), o = op % (NF * 2 + 2); std::string p = "lock" + std::to_string(j) + " ";
        if (o < NF * 2) return p + (o % 2 ? "shared" : "exclusive") + " on file" + std::to_string(o / 2);
        return p + (o == NF * 2 ? "try" : "destroy");
    }
    bool apply(int op) override
    {
        if (op < NF * 13)
        {
            int i = op / 13, o = op % 13, q = 1 - i;
            if (o < 8)
            {
                if (m[i].k != LF::None) return false;
                int p = o < 2 ? o : o < 6 ? (o - 2) / 2 : o - 6; bool own = o < 2 || (o < 6 && (o - 2) % 2);
                bool ok;
                if (o < 2) { f[i] = LockFile::Create(kPath[p]); ok = !m_file[p].exists; }
                else if (o < 6) { f[i] = LockFile::CreateOrOpen(kPath[p], own); ok = true; }
                else { f[i] = LockFile::Open(kPath[p]); ok = m_file[p].exists; }
                MC_CHECK(f[i].has_value() == ok, name(op) << (f[i] ? " succeeded" : " failed"));
                if (mc::failed()) return true;
                if (!ok) return true;
                if (!m_file[p].exists) m_file[p] = {true, next_ino++};
                m[i] = {LF::Live, p, m_file[p].ino, o < 6 && own}; tag[i] = next_tag++;
                return true;
            }
            if (o == 8) { if (m[i].k != LF::Live || m[i].owns) return false; f[i]->TakeOwnership(); m[i].owns = true; return true; }
            if (o == 9) { if (m[i].k == LF::None || m[q].k != LF::None) return false; f[q].emplace(std::move(*f[i])); m[q] = m[i]; tag[q] = tag[i]; if (m[i].k == LF::Live) { m[i].k = LF::Moved; } tag[i] = 0; return true; }
            if (o == 10)
            {
                if (m[i].k == LF::None || m[q].k == LF::None || (m[q].k == LF::Live && lock_on(q))) return false;
                *f[q] = std::move(*f[i]); drop(q); m[q] = m[i]; tag[q] = tag[i]; m[i].k = LF::Moved; tag[i] = 0; return true;
            }
            if (o == 11) { if (m[i].k == LF::None || (m[i].k == LF::Live && lock_on(i))) return false; f[i].reset(); drop(i); return true; }
            if (m[i].k == LF::None) return false;
            LockFile& self = *f[i]; self = std::move(*f[i]); return true;
        }
        op -= NF * 13; int j = op / (NF * 2 + 2), o = op % (NF * 2 + 2);
        if (o < NF * 2)
        {
            int fi = o / 2; if (l[j].file >= 0 || m[fi].k != LF::Live || lock_on(fi)) return false;
            l[j] = {fi, o % 2 == 0, false, m[fi].ino, tag[fi]};
            if (l[j].ex) ex[j] = std::make_unique<Ex>(*f[fi]); else sh[j] = std::make_unique<Sh>(*f[fi]);
            return true;
        }
        if (l[j].file < 0) return false;
        if (o == NF * 2)
        {
            if (l[j].held) return false;
            bool can = true;
            for (auto& k : l) if (&k != &l[j] && k.file >= 0 && k.held && k.ino == l[j].ino && (k.ex || l[j].ex)) can = false;
            bool got = l[j].ex ? ex[j]->TryLock() : sh[j]->TryLock();
            MC_CHECK(got == can, "try lock " << (got ? "succeeded" : "failed"));
            l[j].held = can; if (can) locked[l[j].fdtag] = l[j].ex ? 2 : 1;
            return true;
        }
        ex[j].reset(); sh[j].reset(); if (l[j].held) locked.erase(l[j].fdtag); l[j] = {};
        return true;
    }
    std::string canon() override
    {
        auto& k = os.k; std::ostringstream o;
        int live = 0; for (auto& x : m) live += x.k == LF::Live;
        MC_CHECK(k.open_fds() == live, k.open_fds() << " files are open, " << live << " lock file objects own one");
        for (int p = 0; p < 2; ++p)
        {
            bool e = k.exists(std::string("F") + kPath[p]);
            MC_CHECK(e == m_file[p].exists, "lock file " << kPath[p] << (e ? " still exists" : " is gone"));
            if (e) MC_CHECK((k.names["F" + std::string(kPath[p])]->mode & 0444u) == 0444u, "lock file not readable for everybody");
            o << e;
        }
        int ex_n = 0, sh_n = 0, mex = 0, msh = 0;
        for (auto& d : k.fds) { ex_n += d.second.lock == 2; sh_n += d.second.lock == 1; }
        for (auto& x : locked) { mex += x.second == 2; msh += x.second == 1; }
        MC_CHECK(ex_n == mex && sh_n == msh, ex_n << " exclusive and " << sh_n << " shared locks are held, expected " << mex << " and " << msh);
        MC_CHECK(k.bad_calls == 0, "a system call used a closed file");
        std::map<int, int> rk; auto r = [&](int i) { if (!i) return 0; auto it = rk.emplace(i, static_cast<int>(rk.size()) + 1); return it.first->second; };
        for (int i = 0; i < NF; ++i) o << "|" << m[i].k << (m[i].k == LF::Live ? m[i].path * 2 + m[i].owns : 0) << (m[i].k == LF::Live ? m_file[m[i].path].exists && m_file[m[i].path].ino == m[i].ino : 0) << r(m[i].k == LF::Live ? m[i].ino : 0);
        for (int j = 0; j < NL; ++j) { int fi = -1; for (int i = 0; i < NF; ++i) if (l[j].file >= 0 && tag[i] == l[j].fdtag) fi = i; o << "/" << fi << l[j].ex << l[j].held; }
        return o.str();
    }
    void finish() override
    {
        for (int j = 0; j < NL; ++j) { ex[j].reset(); sh[j].reset(); }
        for (auto& x : f) x.reset();
        MC_CHECK(os.k.open_fds() == 0, "files stay open after everything was destroyed");
    }
};

// ---- processes competing
struct Ghost { int ex{0}, sh{0}; };
template <class M> void use(fos::Os& os, Ghost& g, bool exclusive, bool blocking, int rounds, std::string& out)
{
    auto lf = LockFile::Open(kPath[0]);
    MC_CHECK(lf.has_value(), "lock file cannot be opened");
    if (!lf) return;
    for (int r = 0; r < rounds; ++r)
    {
        M mtx(*lf);
        bool got = true;
        if (blocking) mtx.lock();
        else
        {
            // whether another holder exists during the whole attempt decides the answer
            mc::ghost(&g);
            int other_before = exclusive ? g.ex + g.sh : g.ex;
            (void)other_before;
            got = mtx.try_lock();
        }
        mc::ghost(&g);
        out += got ? "L" : "-";
        if (!got) { continue; }
        int& mine = exclusive ? g.ex : g.sh;
        ++mine;
        MC_CHECK(exclusive ? (g.ex == 1 && g.sh == 0) : g.ex == 0, "a lock was granted while held: " << g.ex << " exclusive, " << g.sh << " shared holders");
        mc::point("critical section");
        mc::ghost(&g);
        --mine;
        mtx.unlock();
    }
    (void)os;
}
void conc(const char* name, mc::Config cfg, std::vector<int> kinds, int rounds)  // kind: 0 ex 1 sh 2 try ex 3 try sh
{
    mc::explore(name, cfg, [=] {
        fos::Os os; Ghost g; std::vector<std::string> out(kinds.size());
        auto owner = LockFile::CreateOrOpen(kPath[0], true);
        for (std::size_t i = 0; i < kinds.size(); ++i)
            mc::spawn([&, i] {
                switch (kinds[i]) { case 0: use<ExclusiveFlockMutex>(os, g, true, true, rounds, out[i]); break; case 1: use<SharedFlockMutex>(os, g, false, true, rounds, out[i]); break; case 2: use<ExclusiveFlockMutex>(os, g, true, false, rounds, out[i]); break; default: use<SharedFlockMutex>(os, g, false, false, rounds, out[i]); }
            }, "process", mc::new_proc());
        mc::join_all();
        owner.reset();
        MC_CHECK(os.k.open_fds() == 0, "files stay open");
        MC_CHECK(!os.k.exists(std::string("F") + kPath[0]), "the owner left the lock file behind");
        std::string o; for (auto& s : out) o += s + "|"; mc::outcome(o);
    });
}
// A holder dies at any system call: the lock is free afterwards and a waiter gets it.
void crash(const char* name, int pre)
{
    mc::Config c{pre}; c.crashes = 1;
    mc::explore(name, c, [] {
        fos::Os os; Ghost g;
        auto owner = LockFile::CreateOrOpen(kPath[0], true);
        int p = mc::new_proc(); mc::crashable(p);
        std::string out;
        mc::spawn([&] { auto lf = LockFile::Open(kPath[0]); Ex l(*lf); bool got = l.TryLock(); mc::ghost(&g); out += got ? "H" : "-"; mc::point("holding"); mc::point("holding"); }, "holder", p);
        int q = mc::new_proc();
        mc::spawn([&] { auto lf = LockFile::Open(kPath[0]); ExclusiveFlockMutex m(*lf); m.lock(); mc::ghost(&g); out += "W"; m.unlock(); }, "waiter", q);
        mc::join_all();
        auto lf = LockFile::Open(kPath[0]); Ex l(*lf);
        MC_CHECK(l.TryLock(), "the lock of a dead process is still held");
        mc::outcome(out + (mc::proc_crashed(p) ? "x" : ""));
    });
}
// Exactly one creator; its file is removed once, by it.
void creators(const char* name, mc::Config cfg, int n)
{
    mc::explore(name, cfg, [=] {
        fos::Os os; int holders = 0, got = 0;
        for (int i = 0; i < n; ++i)
            mc::spawn([&] {
                auto f = LockFile::Create(kPath[0]);
                if (!f) return;
                mc::ghost(&holders); ++holders; ++got;
                MC_CHECK(holders == 1, "two processes created the same lock file");
                LockFile g(std::move(*f));
                f.reset();
                MC_CHECK(os.k.exists(std::string("F") + kPath[0]), "the lock file vanished while its owner lives");
                mc::point("holding");
                mc::ghost(&holders);
                MC_CHECK(os.k.exists(std::string("F") + kPath[0]), "the lock file vanished while its owner lives");
                --holders;
            }, "creator", mc::new_proc());
        mc::join_all();
        MC_CHECK(got >= 1, "nobody could create the lock file");
        MC_CHECK(!os.k.exists(std::string("F") + kPath[0]) && os.k.open_fds() == 0, "lock file or descriptor left behind");
        mc::outcome(std::to_string(got));
    });
}
// Failing system calls: no leaks, no false success, a failing lock terminates instead of pretending.
void faults(const char* name)
{
    mc::explore(name, {0}, [] {
        fos::Os os; os.k.points = false;
        int kind = mc::choose(3), pre = mc::choose(2), which = mc::choose(2);
        if (pre) { os.k.names["F" + std::string(kPath[0])] = std::make_shared<fos::Inode>(); auto& i = *os.k.names["F" + std::string(kPath[0])]; i.mode = 0444; i.uid = 1000; }
        os.k.faults_left = 1;
        os.k.fault_errno = [&](const std::string& c, const std::string&) { return c == "open" ? (which ? EACCES : EMFILE) : c == "chmod" ? EPERM : 0; };
        auto f = kind == 0 ? LockFile::Create(kPath[0]) : kind == 1 ? LockFile::CreateOrOpen(kPath[0], false) : LockFile::Open(kPath[0]);
        bool failed = os.k.faults_left == 0;
        bool want = !failed && (kind == 1 || (kind == 0 && !pre) || (kind == 2 && pre));
        MC_CHECK(f.has_value() == want, "lock file creation " << kind << (want ? " failed" : " succeeded"));
        MC_CHECK(os.k.open_fds() == (want ? 1 : 0), os.k.open_fds() << " descriptors open after " << (want ? "success" : "failure"));
        f.reset();
        bool e = os.k.exists("F" + std::string(kPath[0]));
        if (kind == 0) MC_CHECK(e == (pre == 1), "lock file " << (e ? "left behind" : "of somebody else removed") << " by a creation that " << (want ? "succeeded" : "failed"));
        mc::outcome(std::to_string(kind) + std::to_string(want) + std::to_string(e));
    });
}
void lock_faults(const char* name)
{
    mc::explore(name, {0}, [] {
        fos::Os os; os.k.points = false;
        int kind = mc::choose(6), err = mc::choose(4);
        int e[4] = {EWOULDBLOCK, EBADF, ENOLCK, EINVAL};
        auto f = LockFile::CreateOrOpen(kPath[0], true);
        os.k.faults_left = 1; int n = 0; int fail_at = kind >= 4 ? 2 : 1;
        os.k.fault_errno = [&](const std::string& c, const std::string&) { return c == "flock" && ++n == fail_at ? e[err] : 0; };
        int r = -1;
        bool died = mc::dies([&] {
            ExclusiveFlockMutex x(*f); SharedFlockMutex s(*f);
            switch (kind) { case 0: x.lock(); r = 1; break; case 1: s.lock(); r = 1; break; case 2: r = x.try_lock(); break; case 3: r = s.try_lock(); break; case 4: x.lock(); x.unlock(); r = 1; break; case 5: s.lock(); s.unlock(); r = 1; break; }
        });
        bool injected = os.k.faults_left == 0;
        bool want_false = injected && (kind == 2 || kind == 3) && err == 0;
        bool want_die = injected && !want_false;
        MC_CHECK(died == want_die, (died ? "terminated" : "did not terminate") << " in operation " << kind << " error " << err);
        if (!died) MC_CHECK(r == (want_false ? 0 : 1), "operation " << kind << " answered " << r << (injected ? " although the lock was not obtained" : ""));
        mc::outcome(std::to_string(kind) + std::to_string(died) + std::to_string(r));
    });
}
}  // namespace
MC_CASE(M05, sequences) { mc::BfsConfig c; c.max_depth = mc::tier(7, 14); mc::bfs("sequences", c, Seq::n_ops(), Seq::name, [] { return std::make_unique<Seq>(); }); }
MC_CASE(M05, two_exclusive) { conc("two_exclusive", {mc::tier(4, 8)}, {0, 0}, 2); }
MC_CASE(M05, readers_writer) { conc("readers_writer", {mc::tier(3, 5)}, {0, 1, 1}, 1); }
MC_CASE(M05, mixed_try) { conc("mixed_try", {mc::tier(3, 5)}, {2, 3, 0}, 1); conc("try_try", {mc::tier(4, 8)}, {2, 3}, 2); }
MC_CASE(M05, holder_dies) { crash("holder_dies", mc::tier(2, 4)); }
MC_CASE(M05, creators) { creators("creators2", {mc::tier(4, 8)}, 2); creators("creators3", {mc::tier(2, 4)}, 3); }
MC_CASE(M05, faults) { faults("create_faults"); lock_faults("lock_faults"); }
