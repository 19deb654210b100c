// link: -Wl,--wrap=_ZN5score6memory6shared22MemoryResourceRegistry11getInstanceEv
// M03: allocation from shared memory, its dry run, and the address arithmetic below them.
#include "procs.h"
#include <algorithm>
#include "fakeos.h"
#include "score/memory/shared/new_delete_delegate_resource.h"
#include "score/memory/shared/pointer_arithmetic_util.h"

namespace
{
namespace ms = score::memory::shared;
using Res = std::shared_ptr<ms::ISharedMemoryResource>;
using u64 = std::uint64_t; using u128 = unsigned __int128; using i128 = __int128;
const char* kPath = "/region";

struct Region
{
    Res r; std::uintptr_t base{}, begin{}, end{};
    void take(Res x) { r = std::move(x); base = reinterpret_cast<std::uintptr_t>(r->getBaseAddress()); begin = reinterpret_cast<std::uintptr_t>(r->getUsableBaseAddress()); end = reinterpret_cast<std::uintptr_t>(static_cast<ms::ManagedMemoryResource&>(*r).getEndAddress()); }
};
struct Block { std::uintptr_t a; std::size_t n, al; };
void check_block(const Region& g, const std::vector<Block>& bs, const Block& b)
{
    MC_CHECK(b.a != 0, "a null allocation");
    MC_CHECK(b.a % b.al == 0, "allocation of " << b.n << " bytes is not aligned to " << b.al);
    MC_CHECK(b.a >= g.begin && b.n <= g.end - g.begin && b.a - g.begin <= (g.end - g.begin) - b.n, "allocation of " << b.n << " bytes at offset " << (b.a - g.begin) << " is not inside the region of " << (g.end - g.begin));
    for (auto& o : bs) MC_CHECK(b.a + b.n <= o.a || o.a + o.n <= b.a || b.n == 0 || o.n == 0, "two allocations overlap: offset " << (b.a - g.begin) << " length " << b.n << " and offset " << (o.a - g.begin) << " length " << o.n);
}
// ---- sequences
struct Req { int size; std::size_t al; };
// negative: relative to what is left: -1 all, -2 one more, -3 SIZE_MAX, -4 SIZE_MAX-15, -5 2^63
const int kSizes[] = {0, 1, 7, 8, 24, -1, -2, -3, -4, -5};
const std::size_t kAligns[] = {1, 2, 8, 16, 64, 4096};
struct Seq final : mc::System
{
    fos::Os os; Region g; std::vector<Block> bs; std::size_t user; bool over{false}; std::size_t refused{0};
    explicit Seq(std::size_t u) : user(u)
    {
        procs::reset(); os.k.points = false;
        Res r = procs::factory().Create(kPath, [](Res) {}, user, ms::ISharedMemoryResource::WorldWritable{}, false);
        if (!r) { mc::violation("no region"); return; }
        g.take(r);
        MC_CHECK(g.end - g.begin == user, "the region has " << (g.end - g.begin) << " usable bytes");
        MC_CHECK(g.begin % alignof(std::max_align_t) == 0 && g.begin > g.base, "the usable region overlaps the management data");
        MC_CHECK(g.r->GetUserAllocatedBytes() == 0, "a fresh region has allocations");
    }
    static std::string name(int op) { std::ostringstream o; o << "allocate " << kSizes[op / 6] << " aligned " << kAligns[op % 6]; return o.str(); }
    bool apply(int op) override
    {
        if (!g.r) return false;
        const std::size_t al = kAligns[op % 6]; const int s = kSizes[op / 6];
        const std::size_t used = g.r->GetUserAllocatedBytes();
        const std::uintptr_t from = g.begin + used; const std::uintptr_t at = (from + al - 1) / al * al;
        const std::size_t left = at <= g.end ? g.end - at : 0;
        const std::size_t n = s >= 0 ? static_cast<std::size_t>(s) : s == -1 ? left : s == -2 ? left + 1 : s == -3 ? ~std::size_t{0} : s == -4 ? ~std::size_t{0} - 15 : std::size_t{1} << 63;
        const bool fits = at <= g.end && n <= g.end - at;
        void* p = nullptr;
        const bool died = mc::dies([&] { p = g.r->allocate(n, al); });
        const std::size_t now = g.r->GetUserAllocatedBytes();
        MC_CHECK(now <= user, now << " of " << user << " bytes accounted");
        if (died)
        {
            MC_CHECK(!fits, "an allocation of " << n << " bytes aligned to " << al << " was refused with " << left << " bytes left");
            MC_CHECK(now == used, "a refused allocation was accounted");
            ++refused; return true;
        }
        MC_CHECK(p != nullptr || n == 0, "a null allocation");
        if (!fits) { mc::violation("an allocation that does not fit succeeded"); return true; }
        Block b{reinterpret_cast<std::uintptr_t>(p), n, al};
        check_block(g, bs, b);
        MC_CHECK(now >= b.a + b.n - g.begin, "an allocation was not accounted");
        bs.push_back(b);
        g.r->deallocate(nullptr, 0, 1);
        MC_CHECK(g.r->GetUserAllocatedBytes() == now, "giving memory back changed the account");
        return true;
    }
    std::string canon() override { std::ostringstream o; o << (g.r ? g.r->GetUserAllocatedBytes() : 0); return o.str(); }
};
// ---- several processes or threads at once
void conc(const char* name, mc::Config cfg, int n, int rounds, std::size_t user, int kinds)
{
    mc::explore(name, cfg, [=] {
        procs::reset();
        fos::Os os; os.k.points = false;
        Region creator; std::vector<Region> g(static_cast<std::size_t>(n));
        std::vector<Block> done; std::vector<std::pair<std::size_t, std::size_t>> refused;
        const Req sets[4] = {{8, 8}, {24, 16}, {3, 1}, {17, 64}};
        creator.take(procs::factory().Create(kPath, [](Res) {}, user, ms::ISharedMemoryResource::WorldWritable{}, false));
        std::vector<int> procs_(static_cast<std::size_t>(n));
        std::vector<int> what(static_cast<std::size_t>(n * rounds));
        for (int i = 0; i < n; ++i)
        {
            const std::size_t u = static_cast<std::size_t>(i);
            procs_[u] = mc::new_proc(); mc::expect_death_ok(procs_[u]);
            for (int k = 0; k < rounds; ++k) what[static_cast<std::size_t>(i * rounds + k)] = mc::choose(kinds, "request");
            mc::spawn([&, u] { g[u].take(procs::factory().Open(kPath, true, std::nullopt)); }, "open", procs_[u]); mc::join_all();
        }
        for (auto& x : g) MC_CHECK(x.begin == creator.begin && x.end == creator.end, "the processes map different memory");
        for (int i = 0; i < n; ++i)
        {
            const std::size_t u = static_cast<std::size_t>(i);
            mc::spawn([&, u, i] {
                for (int k = 0; k < rounds; ++k)
                {
                    const Req q = sets[what[static_cast<std::size_t>(i * rounds + k)]];
                    mc::ghost(&done); refused.push_back({static_cast<std::size_t>(q.size), q.al});
                    void* p = g[u].r->allocate(static_cast<std::size_t>(q.size), q.al);
                    mc::ghost(&done); refused.erase(std::find(refused.begin(), refused.end(), std::make_pair(static_cast<std::size_t>(q.size), q.al)));
                    Block b{reinterpret_cast<std::uintptr_t>(p), static_cast<std::size_t>(q.size), q.al};
                    check_block(creator, done, b); done.push_back(b);
                    mc::ghost(creator.r.get());
                }
            }, "allocator", procs_[u]);
        }
        mc::join_all(); mc::ghost(&done);
        const std::size_t used = creator.r->GetUserAllocatedBytes();
        MC_CHECK(used <= user, used << " of " << user << " bytes accounted");
        for (auto& b : done) MC_CHECK(b.a + b.n - creator.begin <= used, "an allocation is not accounted");
        for (auto& q : refused) { const std::uintptr_t at = (creator.begin + used + q.second - 1) / q.second * q.second; MC_CHECK(at > creator.end || creator.end - at < q.first, "a request of " << q.first << " bytes was refused although it fits"); }
        std::ostringstream o; o << done.size() << "/" << used; mc::outcome(o.str());
        for (std::size_t u = 0; u < g.size(); ++u) if (!mc::proc_dead(procs_[u])) { mc::spawn([&, u] { g[u].r.reset(); }, "close", procs_[u]); mc::join_all(); }
        for (std::size_t u = 0; u < g.size(); ++u) if (mc::proc_dead(procs_[u])) { os.k.ended = true; procs::as() = procs_[u]; g[u].r.reset(); procs::as() = -1; }
        creator.r.reset();
    });
}
// ---- the dry run
struct Upstream final : score::cpp::pmr::memory_resource
{
    std::map<void*, std::pair<std::size_t, std::size_t>> live; int wrong{0};
    void* do_allocate(std::size_t n, std::size_t a) override { void* p = ::operator new(n + 1, std::align_val_t{a}); live[p] = {n, a}; return p; }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override { auto i = live.find(p); if (i == live.end() || i->second != std::make_pair(n, a)) { ++wrong; return; } live.erase(i); ::operator delete(p, std::align_val_t{a}); }
    bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
    ~Upstream() override { for (auto& x : live) ::operator delete(x.first, std::align_val_t{x.second.second}); }
};
struct Dry final : mc::System
{
    static constexpr int NS = 5, NA = 5;
    static constexpr std::size_t S[NS] = {0, 1, 8, 23, 4096}, A[NA] = {1, 2, 8, 16, 128};
    Upstream up; std::unique_ptr<ms::NewDeleteDelegateMemoryResource> d; std::vector<Block> live; std::size_t sum{0}; bool dead{false};
    Dry() { procs::reset(); d = std::make_unique<ms::NewDeleteDelegateMemoryResource>(77u, &up); }
    ~Dry() override { d.reset(); }
    static std::string name(int op) { if (op < NS * NA) { std::ostringstream o; o << "allocate " << S[op / NA] << " aligned " << A[op % NA]; return o.str(); } const char* n[] = {"give back the oldest", "give back the newest", "give back a stranger"}; return n[op - NS * NA]; }
    bool apply(int op) override
    {
        if (dead) return false;
        if (op < NS * NA)
        {
            const std::size_t n = S[op / NA], a = A[op % NA];
            void* p = d->allocate(n, a);
            Block b{reinterpret_cast<std::uintptr_t>(p), n, a};
            MC_CHECK(p && b.a % a == 0, "not aligned"); MC_CHECK(up.live.count(p) == 1, "memory from nowhere");
            for (auto& o : live) MC_CHECK(b.a + b.n <= o.a || o.a + o.n <= b.a || !b.n || !o.n, "overlap");
            live.push_back(b);
            sum = (sum + a - 1) / a * a + n;    // what a region that starts well aligned would use
            MC_CHECK(d->GetUserAllocatedBytes() == sum, d->GetUserAllocatedBytes() << " bytes accounted, " << sum << " needed");
            return true;
        }
        op -= NS * NA;
        if (op == 2) { int x; dead = mc::dies([&] { Upstream* u = &up; (void)u; d->deallocate(&x, 1, 1); }); MC_CHECK(dead, "a stranger's memory was taken back"); up.wrong = 0; return true; }
        if (live.empty()) return false;
        const std::size_t i = op == 0 ? 0 : live.size() - 1; Block b = live[i]; live.erase(live.begin() + static_cast<long>(i));
        d->deallocate(reinterpret_cast<void*>(b.a), b.n, b.al);
        MC_CHECK(up.wrong == 0 && up.live.size() == live.size(), "memory was not given back");
        MC_CHECK(d->GetUserAllocatedBytes() == sum, "giving memory back changed the account");
        return true;
    }
    std::string canon() override { std::ostringstream o; o << sum % 128 << "|" << (sum > 0) << dead; for (auto& b : live) o << "," << b.n << ":" << b.al; return o.str(); }
    void finish() override { if (dead) return; d.reset(); MC_CHECK(up.live.empty() && up.wrong == 0, up.live.size() << " allocations were not given back"); }
};
constexpr std::size_t Dry::S[], Dry::A[];
// ---- address arithmetic
const u64 kV[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 4095, 4096, (1ull << 31) - 1, 1ull << 31, 1ull << 32, (1ull << 63) - 9, (1ull << 63) - 8, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, (1ull << 63) + 8, ~0ull - 16, ~0ull - 15, ~0ull - 8, ~0ull - 7, ~0ull - 1, ~0ull};
constexpr int kNV = sizeof(kV) / sizeof(kV[0]);
u64 val(const char* w) { return kV[mc::choose(kNV, w)]; }
template <class F> std::optional<decltype(std::declval<F>()())> call(F f) { std::optional<decltype(f())> r; const bool d = mc::dies([&] { r = f(); }); if (d) r.reset(); return r; }
template <class T> void expect(const char* what, const std::optional<T>& got, bool representable, i128 want)
{
    if (!representable) { MC_CHECK(!got, what << ": a result that cannot be represented was returned"); return; }
    MC_CHECK(got.has_value(), what << ": terminated although the result exists");
    if (got) MC_CHECK(static_cast<T>(want) == *got, what << ": " << static_cast<unsigned long long>(*got) << " instead of " << static_cast<unsigned long long>(want));
}
constexpr i128 kU = (i128{1} << 64), kS = (i128{1} << 63);
void arithmetic(const char* name)
{
    mc::explore(name, {0}, [] {
        const int f = mc::choose(9, "function"); const u64 a = val("a"), b = val("b"); const auto sb = static_cast<std::int64_t>(b);
        const auto P = [](u64 x) { return reinterpret_cast<const char*>(x); };
        switch (f)
        {
            case 0: { i128 r = i128{a} + b; expect("add", call([&] { return ms::AddOffsetToPointerAsInteger(a, b); }), r < kU, r); expect("add to pointer", call([&] { return reinterpret_cast<u64>(ms::AddOffsetToPointer(P(a), static_cast<std::size_t>(b))); }), r < kU, r); break; }
            case 1: { i128 r = i128{a} - b; expect("subtract", call([&] { return ms::SubtractOffsetFromPointerAsInteger(a, b); }), r >= 0, r); break; }
            case 2: { i128 r = i128{a} + sb; expect("add signed", call([&] { return ms::AddSignedOffsetToPointerAsInteger(a, sb); }), r >= 0 && r < kU, r); expect("add signed to pointer", call([&] { return reinterpret_cast<u64>(ms::AddOffsetToPointer(P(a), static_cast<std::ptrdiff_t>(sb))); }), r >= 0 && r < kU, r); break; }
            case 3: { i128 r = i128{a} - i128{b}; expect("pointer difference", call([&] { return ms::SubtractPointersBytes(P(a), P(b)); }), r >= -kS && r < kS, r); break; }
            case 4: { const auto sa = static_cast<std::int64_t>(a); i128 r = i128{sa} + b; expect("signed plus unsigned", call([&] { return ms::AddUnsignedToSigned(sa, b); }), r < kS, r); break; }
            case 5: { const auto sa = static_cast<std::int64_t>(a); i128 r = i128{sa} - i128{b}; expect("signed minus unsigned", call([&] { return ms::SubtractUnsignedFromSigned(sa, b); }), r >= -kS, r); break; }
            case 6: { const auto sa = static_cast<std::int64_t>(a); i128 r = sa < 0 ? -i128{sa} : i128{sa}; expect("absolute value", call([&] { return ms::AbsoluteValue(sa); }), true, r); break; }
            case 7: { expect("undo cast", call([&] { return ms::UndoSignedToUnsignedIntegerCast(a); }), true, static_cast<std::int64_t>(a)); break; }
            default: { if (b == 0) { MC_CHECK(!call([&] { return ms::CalculateAlignedSize(a, 0); }), "alignment zero accepted"); break; } if (b & (b - 1)) break; i128 r = (i128{a} + b - 1) / b * b; expect("aligned size", call([&] { return ms::CalculateAlignedSize(a, b); }), r < kU, r); }
        }
    });
}
void sequence(const char* name, int n)
{
    mc::explore(name, {0}, [=] {
        const std::size_t S[] = {0, 8, 16, 64, 4096, 1ull << 63, ~0ull - 127}; const std::size_t A[] = {1, 8, 16, 64};
        std::vector<score::memory::DataTypeSizeInfo> v; i128 want = 0; bool ok = true;
        for (int i = 0; i < n; ++i)
        {
            const std::size_t al = A[mc::choose(4, "alignment")], s = S[mc::choose(7, "size")] / al * al;
            if (i > 0) want = (want + al - 1) / al * al;
            ok = ok && want < kU; want += s; ok = ok && want < kU;
            v.push_back(score::memory::DataTypeSizeInfo{s, al});
        }
        expect("size of a sequence", call([&] { return ms::CalculateAlignedSizeOfSequence(v); }), ok, want);
    });
}
}  // namespace
MC_CASE(M03, requests)
{
    for (std::size_t u : {std::size_t{1}, std::size_t{100}, std::size_t{5000}}) { mc::BfsConfig c; c.max_depth = mc::tier(8, 20); mc::bfs("requests in " + std::to_string(u) + " bytes", c, 60, Seq::name, [u] { return std::make_unique<Seq>(u); }); }
}
MC_CASE(M03, two) { conc("two", {mc::tier(4, 6), 0, 0, mc::tier(1, 2)}, 2, mc::tier(2, 3), mc::tier(120, 160), mc::tier(4, 3)); }
MC_CASE(M03, three) { conc("three", {mc::tier(3, 4), 0, 0, mc::tier(1, 1)}, 3, 1, 40, 4); conc("three_twice", {2}, 3, 2, 100, mc::tier(2, 3)); }
MC_CASE(M03, dry_run) { mc::BfsConfig c; c.max_depth = mc::tier(3, 4); mc::bfs("dry_run", c, Dry::NS * Dry::NA + 3, Dry::name, [] { return std::make_unique<Dry>(); }); }
MC_CASE(M03, arithmetic) { arithmetic("arithmetic"); sequence("sequence2", 2); sequence("sequence3", 3); }
