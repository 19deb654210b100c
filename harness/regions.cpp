// M02: the map of known memory regions: registration and removal against concurrent lookups.
#include "mc.h"
#include <map>
#include <memory>
#include <optional>
#include <shared_mutex>
#include <sstream>
#include <unordered_map>
#include <vector>
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/memory_region_map.h"
#define private public                       // the singleton is built anew for every execution
#include "score/memory/shared/memory_resource_registry.h"
#undef private

namespace
{
namespace ms = score::memory::shared;
using Set = std::map<std::uintptr_t, std::uintptr_t>;
using Range = std::pair<std::uintptr_t, std::uintptr_t>;
constexpr std::uintptr_t kBase = 0x10000;
// neighbours that touch, overlap, enclose
const Range kRanges[] = {{kBase, kBase + 100}, {kBase + 100, kBase + 200}, {kBase + 300, kBase + 400}, {kBase + 50, kBase + 150}, {kBase + 201, kBase + 299}, {kBase + 20, kBase + 30}, {kBase - 50, kBase + 500}, {kBase + 399, kBase + 420}};
constexpr int kN = 8;
const std::uintptr_t kProbe[] = {kBase - 51, kBase - 50, kBase - 1, kBase, kBase + 1, kBase + 20, kBase + 50, kBase + 99, kBase + 100, kBase + 101, kBase + 150, kBase + 200, kBase + 201, kBase + 250, kBase + 299, kBase + 300, kBase + 350, kBase + 400, kBase + 401, kBase + 420, kBase + 500, kBase + 501, 1, ~std::uintptr_t{0}};

bool clash(const Set& s, const Range& r)
{
    for (auto& x : s) if (r.first < x.second && x.first < r.second) return true;
    return false;
}
// An address on the border of two touching regions belongs to the one it starts; the end of a region counts as inside.
std::optional<Range> look(const Set& s, std::uintptr_t a)
{
    auto it = s.upper_bound(a);
    if (it == s.begin()) return {};
    --it;
    if (a > it->second) return {};
    return Range{it->first, it->second};
}
std::string show(const std::optional<Range>& r) { std::ostringstream o; if (!r) return "no region"; o << "region [" << static_cast<long>(r->first - kBase) << "," << static_cast<long>(r->second - kBase) << "]"; return o.str(); }
std::optional<Range> plain(const std::optional<ms::MemoryRegionBounds>& b) { if (!b.has_value() || !b->has_value()) return {}; return Range{b->GetStartAddress(), b->GetEndAddress()}; }

// What was, is, or is about to become current.
struct Oracle
{
    std::vector<Set> states{Set{}};
    int done{0};
    void begin(Set s) { mc::ghost(this); states.push_back(std::move(s)); }
    void end() { mc::ghost(this); done = static_cast<int>(states.size()) - 1; }
    const Set& now() const { return states.back(); }
};
void check_lookup(Oracle& o, std::uintptr_t a, const std::function<std::optional<Range>()>& f)
{
    mc::ghost(&o); int lo = o.done;
    auto got = f();
    mc::ghost(&o); int hi = static_cast<int>(o.states.size()) - 1;
    for (int i = lo; i <= hi; ++i) if (look(o.states[static_cast<std::size_t>(i)], a) == got) return;
    std::ostringstream s; s << "the lookup of base+" << static_cast<long>(a - kBase) << " answers " << show(got) << "; while it ran this was never true, expected " << show(look(o.states[static_cast<std::size_t>(lo)], a));
    mc::violation(s.str());
}
// One registration or removal on the map; kinds: 0..kN-1 register, kN..2kN-1 remove, 2kN clear
void change(ms::MemoryRegionMap& m, Oracle& o, int k)
{
    Set s = o.now();
    if (k < kN)
    {
        const Range& r = kRanges[k];
        if (s.count(r.first)) return;                      // the same start again terminates by contract
        bool bad = clash(s, r);
        if (!bad) s[r.first] = r.second;
        o.begin(s);
        bool ok = m.UpdateKnownRegion(r.first, r.second);
        MC_CHECK(ok == !bad, "registering " << show(Range{r}) << (ok ? " succeeds although it overlaps" : " is refused although it overlaps nothing"));
        o.end();
    }
    else if (k < 2 * kN)
    {
        const Range& r = kRanges[k - kN];
        auto it = s.find(r.first);
        if (it == s.end()) return;
        s.erase(it);
        o.begin(s); m.RemoveKnownRegion(r.first); o.end();
    }
    else { o.begin({}); m.ClearKnownRegions(); o.end(); }
}
std::string change_name(int k)
{
    std::ostringstream o;
    if (k < kN) o << "register " << show(Range{kRanges[k]}); else if (k < 2 * kN) o << "remove " << show(Range{kRanges[k - kN]}); else o << "clear";
    return o.str();
}

// ---- sequences ----
struct Seq : mc::System
{
    ms::MemoryRegionMap m; Oracle o; int version{0};
    bool apply(int k) override
    {
        std::size_t n = o.states.size();
        Set before = o.now();
        change(m, o, k);
        if (o.states.size() == n) return false;
        if (before != o.now()) ++version;
        for (auto a : kProbe) check_lookup(o, a, [&] { return plain(m.GetBoundsFromAddress(a)); });
        MC_CHECK(m.GetSize() == o.now().size(), "the number of regions is " << m.GetSize() << " instead of " << o.now().size());
        return true;
    }
    std::string canon() override { std::ostringstream s; for (auto& x : o.now()) s << x.first << '-' << x.second << ' '; s << "|" << std::min(version, 22); return s.str(); }
    void finish() override
    {
        for (auto& r : kRanges)
            if (!o.now().count(r.first)) MC_CHECK(mc::dies([&] { m.RemoveKnownRegion(r.first); }), "removing a region that is not registered goes unnoticed");
            else MC_CHECK(mc::dies([&] { MC_CHECK(!m.UpdateKnownRegion(r.first, r.second + 1), "a region is registered twice"); std::terminate(); }), "");
        for (auto a : kProbe) check_lookup(o, a, [&] { return plain(m.GetBoundsFromAddress(a)); });
    }
};

struct Res final : ms::ManagedMemoryResource
{
    Range r; bool bypass;
    explicit Res(Range x, bool b = false) : r(x), bypass(b) {}
    void* getBaseAddress() const noexcept override { return reinterpret_cast<void*>(r.first); }
    void* getUsableBaseAddress() const noexcept override { return getBaseAddress(); }
    std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }
    bool IsOffsetPtrBoundsCheckBypassingEnabled() const noexcept override { return bypass; }

  private:
    const void* getEndAddress() const noexcept override { return reinterpret_cast<void*>(r.second); }
    const ms::MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
    void* do_allocate(const std::size_t, const std::size_t) override { return nullptr; }
    void do_deallocate(void*, const std::size_t, const std::size_t) override {}
    bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
ms::MemoryResourceRegistry& fresh()
{
    auto& g = ms::MemoryResourceRegistry::getInstance();
    g.~MemoryResourceRegistry();
    return *new (&g) ms::MemoryResourceRegistry();
}
// ---- the registry: identifiers and regions together ----
constexpr int kIds = 3;
struct Registry : mc::System
{
    ms::MemoryResourceRegistry& g{fresh()};
    std::vector<std::unique_ptr<Res>> res;
    std::map<int, Res*> by_id;
    Set s;
    Registry() { for (int i = 0; i < 2 * kN; ++i) res.push_back(std::make_unique<Res>(kRanges[i % kN], i >= kN)); }
    static std::string name(int k)
    {
        std::ostringstream o; int n = 2 * kN * kIds;
        if (k < n) o << "insert id " << k / (2 * kN) << (k % (2 * kN) >= kN ? " unchecked" : "") << " with " << show(Range{kRanges[k % kN]});
        else if (k < n + kIds) o << "remove id " << k - n; else o << "clear";
        return o.str();
    }
    static constexpr int kOps = 2 * kN * kIds + kIds + 1;
    bool apply(int k) override
    {
        int n = 2 * kN * kIds;
        if (k < n)
        {
            int id = k / (2 * kN); Res* r = res[static_cast<std::size_t>(k % (2 * kN))].get();
            bool taken = by_id.count(id) != 0;
            if (!taken && !r->bypass && s.count(r->r.first)) return false;
            bool bad = taken || (!r->bypass && clash(s, r->r));
            bool ok = g.insert_resource({static_cast<std::uint64_t>(id), r});
            MC_CHECK(ok == !bad, name(k) << (ok ? " succeeds" : " is refused"));
            if (!bad) { by_id[id] = r; if (!r->bypass) s[r->r.first] = r->r.second; }
        }
        else if (k < n + kIds)
        {
            int id = k - n;
            g.remove_resource(static_cast<std::uint64_t>(id));
            auto it = by_id.find(id);
            if (it != by_id.end()) { if (!it->second->bypass) s.erase(it->second->r.first); by_id.erase(it); }
        }
        else { g.clear(); by_id.clear(); s.clear(); }
        for (int id = 0; id < kIds; ++id)
        {
            auto it = by_id.find(id); Res* want = it == by_id.end() ? nullptr : it->second;
            MC_CHECK(g.at(static_cast<std::uint64_t>(id)) == want, "identifier " << id << " leads to another resource");
            auto b = g.GetBoundsFromIdentifier(static_cast<std::uint64_t>(id));
            MC_CHECK(b.has_value() == (want != nullptr), "bounds of identifier " << id << (want ? " are missing" : " are found"));
            if (b.has_value() && want) MC_CHECK(b.value().GetStartAddress() == want->r.first && b.value().GetEndAddress() == want->r.second, "bounds of identifier " << id);
        }
        for (auto a : kProbe)
        {
            auto got = plain(g.GetBoundsFromAddressAsInteger(a)), got2 = plain(g.GetBoundsFromAddress(reinterpret_cast<void*>(a)));
            MC_CHECK(got == look(s, a) && got2 == got, "the lookup of base+" << static_cast<long>(a - kBase) << " answers " << show(got) << " instead of " << show(look(s, a)));
        }
        return true;
    }
    std::string canon() override { std::ostringstream o; for (auto& x : by_id) o << x.first << ':' << x.second->r.first << (x.second->bypass ? "u " : " "); return o.str(); }
};

// ---- one writer, readers ----
void race(const char* name, int prefix_choices, std::vector<std::vector<int>> programs, int readers, int lookups, int preemptions, int in_one_go = 0)
{
    mc::Config c{preemptions};
    mc::explore(name, c, [=] {
        ms::MemoryRegionMap m; Oracle o;
        int pre = mc::choose(prefix_choices, "changes before");
        for (int i = 0; i < pre; ++i) change(m, o, i % 2 ? kN + 2 : 2);
        auto& prog = programs[static_cast<std::size_t>(mc::choose(static_cast<int>(programs.size()), "changes"))];
        std::uintptr_t a = kProbe[mc::choose(2, "address") ? 6 : 16];
        mc::race_check(&m, sizeof(m), "the set of regions");
        std::vector<int> t;
        t.push_back(mc::spawn([&] {
            int n = 0;
            { mc::NoPreempt np; for (; n < in_one_go; ++n) change(m, o, prog[static_cast<std::size_t>(n)]); }
            for (; n < static_cast<int>(prog.size()); ++n) change(m, o, prog[static_cast<std::size_t>(n)]);
        }, "writer"));
        for (int r = 0; r < readers; ++r)
            t.push_back(mc::spawn([&, r] {
                for (int i = 0; i < lookups; ++i) check_lookup(o, a, [&] { return plain(m.GetBoundsFromAddress(a)); });
            }, "reader"));
        for (int x : t) mc::join(x);
        mc::race_forget(&m);
        for (auto x : kProbe) check_lookup(o, x, [&] { return plain(m.GetBoundsFromAddress(x)); });
        // the map still has room for changes: no version stays taken
        for (int i = 0; i < 12; ++i) { change(m, o, 2 * kN); change(m, o, 1); }
        check_lookup(o, kBase + 150, [&] { return plain(m.GetBoundsFromAddress(kBase + 150)); });
    });
}
void races()
{
    // register, remove, register elsewhere, overlapping, clear
    race("one writer and one reader", 3, {{0, kN + 0, 2}, {2, 0, kN + 2}, {0, 3, 1}, {0, 2, 2 * kN}, {0, 1, kN + 0}, {2, kN + 2, 2}}, 1, 2, mc::tier(4, 6));
    race("one writer and two readers", 1, {{0, kN + 0}, {2, 0, kN + 2}, {0, 2 * kN, 2}}, 2, 1, mc::tier(3, 4));
}
void wraps()
{
    // more changes than there are versions while a reader stands still
    std::vector<std::vector<int>> p(2);
    for (int i = 0; i < 11; ++i) { p[0].push_back(i % 2 ? kN + 0 : 0); p[1].push_back(i % 3 == 0 ? 2 : i % 3 == 1 ? 0 : 2 * kN); }
    race("a writer that uses up all versions", mc::tier(2, 11), p, 1, 2, mc::tier(2, 3));
    if (mc::thorough()) race("a writer that uses up all versions and two readers", 2, p, 2, 1, 2);
    else race("a writer that uses up all versions and two readers", 1, {p[0]}, 2, 1, 1);
    // both readers stand still until the version they chose is being written again
    p[0].resize(10); p[1].resize(10);
    race("two readers of a version that is being written again", 1, {p[0]}, 2, 1, mc::tier(3, 4), 9);
}
void registry_race()
{
    mc::explore("registry: two writers and a reader", mc::Config{mc::tier(2, 3)}, [] {
        auto& g = fresh();
        Res x{kRanges[0]}, y{kRanges[2]}, fixed{kRanges[1]};
        bool third = mc::choose(2, "a region is there before");
        if (third) g.insert_resource({9, &fixed});
        std::vector<int> t;
        int keep = mc::choose(2, "remove again");
        t.push_back(mc::spawn([&] { MC_CHECK(g.insert_resource({1, &x}), "the first registration is refused"); if (keep) g.remove_resource(1); }, "writer"));
        t.push_back(mc::spawn([&] { MC_CHECK(g.insert_resource({2, &y}), "the second registration is refused"); MC_CHECK(g.at(2) == &y, "what was just registered is not found"); }, "writer"));
        t.push_back(mc::spawn([&] {
            MC_CHECK(plain(g.GetBoundsFromAddressAsInteger(kBase + 150)).has_value() == third, "a region nobody touches changes");
            auto b = plain(g.GetBoundsFromAddressAsInteger(kBase + 350));
            MC_CHECK(!b || *b == kRanges[2], "a lookup answers a range nobody registered");
            auto e = plain(g.GetBoundsFromAddressAsInteger(kBase + 350));
            MC_CHECK(!b || e, "a registered region is missing in a later lookup");
        }, "reader"));
        for (int i : t) mc::join(i);
        MC_CHECK(g.at(1) == (keep ? nullptr : &x) && g.at(2) == &y && g.at(9) == (third ? &fixed : nullptr), "the registry lost a change");
        MC_CHECK(plain(g.GetBoundsFromAddressAsInteger(kBase + 50)).has_value() == !keep && plain(g.GetBoundsFromAddressAsInteger(kBase + 350)) == std::optional<Range>(kRanges[2]), "the set of regions lost a change");
    });
}
}  // namespace

MC_CASE(M02, sequences)
{
    mc::bfs("sequences of changes", mc::BfsConfig{mc::tier(24, 30)}, 2 * kN + 1, change_name, [] { return std::make_unique<Seq>(); });
    mc::bfs("sequences of registrations with identifiers", mc::BfsConfig{mc::tier(6, 10)}, Registry::kOps, Registry::name, [] { return std::make_unique<Registry>(); });
}
MC_CASE(M02, races) { races(); }
MC_CASE(M02, wraps) { wraps(); }
MC_CASE(M02, registry) { registry_race(); }
