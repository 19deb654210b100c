// M01: offset pointers: every history of pointer operations over two regions, their boundaries and ordinary memory.
#include "mc.h"
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/offset_ptr.h"
#include "score/memory/shared/pointer_arithmetic_util.h"
#include <array>
#include <cstring>
#include <limits>
#include <sstream>

namespace
{
namespace ms = score::memory::shared;
using ms::OffsetPtr;

struct Region final : ms::ManagedMemoryResource
{
    unsigned char *b, *e;
    bool bypass;
    Region(unsigned char* x, unsigned char* y, bool by = false) : b(x), e(y), bypass(by) {}
    void* getBaseAddress() const noexcept override { return b; }
    void* getUsableBaseAddress() const noexcept override { return b; }
    std::size_t GetUserAllocatedBytes() const noexcept override { return 0; }
    bool IsOffsetPtrBoundsCheckBypassingEnabled() const noexcept override { return bypass; }

  private:
    const void* getEndAddress() const noexcept override { return e; }
    const ms::MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return nullptr; }
    void* do_allocate(const std::size_t, const std::size_t) override { return nullptr; }
    void do_deallocate(void*, const std::size_t, const std::size_t) override {}
    bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

struct One { std::uint64_t a; };
struct Two { std::uint64_t b; };
struct Item : One, Two { std::uint64_t c; };
constexpr int kItem = sizeof(Item);
using Ptr = OffsetPtr<Item>;
constexpr int kPtr = sizeof(Ptr);
constexpr int kNull = -1;

// One address range: [gap][A][gap][B][gap][bypassing region][gap][ordinary memory][gap][A mapped again][gap]
constexpr int kA = 512, kAe = kA + 256, kB = 1024, kBe = kB + 256, kC = 1536, kCe = kC + 256, kS = 2048, kA2 = 3072, kSize = 4096;
alignas(4096) unsigned char mem[kSize];
const char* cell_name[] = {"A.first", "A.last", "B", "local1", "local2", "unchecked"};
const int cell_at[] = {kA, kAe - kPtr, kB + 64, kS, kS + 64, kC + 32};
const char* target_name[] = {"null", "A.item", "A.last item", "over A's end", "over A's start", "B.item", "local item", "A.end"};
const int target_at[] = {kNull, kA + 64, kAe - kItem, kAe - kItem + 8, kA - 8, kB + 128, kS + 256, kAe};
constexpr int kCells = 6, kTargets = 8;
struct Bounds { int b{0}, e{0}; bool operator==(const Bounds& o) const { return b == o.b && e == o.e; } };
Bounds home(int at) { return at >= kA && at < kAe ? Bounds{kA, kAe} : at >= kB && at < kBe ? Bounds{kB, kBe} : at >= kA2 && at < kA2 + 256 ? Bounds{kA2, kA2 + 256} : Bounds{}; }

int at_of(const void* p) { return p == nullptr ? kNull : static_cast<int>(static_cast<const unsigned char*>(p) - mem); }
std::string name_at(int t) { if (t == kNull) return "null"; std::ostringstream o; o << "offset " << t; return o.str(); }

struct Model { int t{kNull}; Bounds b{}; };
// must a dereference of `size` bytes at t by a pointer with these bounds terminate?
bool outside(const Bounds& b, int t, int size) { return b.e != 0 && (t < b.b || t + size > b.e); }

// Runs one access; `want` is the expected place or kNull, `dead` whether it has to terminate.
template <class F>
void access(const char* what, const std::string& who, int want, bool dead, F f)
{
    int got = -7; std::string why;
    bool d = mc::dies([&] { got = at_of(f()); }, &why);
    MC_CHECK(d == dead, what << " of " << who << " (to " << name_at(want) << ") " << (d ? "terminates the process" : "is let through although it leaves the region"));
    if (!d && !dead) MC_CHECK(got == want, what << " of " << who << " denotes " << name_at(got) << " instead of " << name_at(want));
}
void judge(const Ptr& p, const std::string& who, const Model& m)
{
    bool null = m.t == kNull, dead = !null && outside(m.b, m.t, kItem);
    MC_CHECK(static_cast<bool>(p) == !null && !p == null && (p == nullptr) == null && (nullptr != p) == !null, who << " is null or not against its history");
    access("get", who, m.t, dead, [&] { return p.get(); });
    access("conversion", who, m.t, dead, [&] { return static_cast<Item*>(p); });
    access("->", who, m.t, dead, [&] { return p.operator->(); });
    access("*", who, m.t, null || dead, [&] { return &*p; });
    if (!null)
        for (int i : {-9, -1, 0, 1, 9})
        {
            int t = m.t + i * kItem;
            if (t < 0 || t + kItem > kSize) continue;
            access(i == 0 ? "[0]" : i < 0 ? "element access before" : "element access behind", who, t, outside(m.b, t, kItem), [&] { return &p[i]; });
        }
}
void convert(const Ptr& p, const std::string& who, const Model& m, bool local)
{   // everything made from a pointer by conversion denotes the same object and is checked like a local copy
    Bounds b = local ? m.b : home(at_of(&p));
    bool null = m.t == kNull;
    OffsetPtr<const Item> c{p};
    access("get through a const copy", who, m.t, !null && outside(b, m.t, kItem), [&] { return const_cast<Item*>(c.get()); });
    OffsetPtr<Two> two{p};
    int t2 = null ? kNull : m.t + static_cast<int>(sizeof(One));
    access("get through a base class copy", who, t2, !null && outside(b, t2, sizeof(Two)), [&] { return two.get(); });
    OffsetPtr<void> v{p};
    access("typed get through a void copy", who, m.t, !null && outside(b, m.t, kItem), [&] { return v.get<Item>(); });
    for (std::size_t n : {std::size_t{1}, std::size_t{kItem}, std::size_t{200}})
        access("sized get through a void copy", who, m.t, !null && outside(b, m.t, static_cast<int>(n)), [&] { return v.get(n); });
    Ptr back{static_cast<const Ptr&>(p)};
    Ptr moved{std::move(back)};
    judge(moved, "a moved copy of " + who, Model{m.t, null ? Bounds{} : b});
    OffsetPtr<Two> two2; two2 = p;
    MC_CHECK((two2 == two) && (static_cast<bool>(two2) == !null), "assigning " << who << " to a base class pointer denotes something else than constructing one");
    if (!null)
    {
        Ptr plus = p + 1, minus = p - 1;
        access("get of pointer plus one", who, m.t + kItem, outside(b, m.t + kItem, kItem), [&] { return plus.get(); });
        access("get of pointer minus one", who, m.t - kItem, outside(b, m.t - kItem, kItem), [&] { return minus.get(); });
        MC_CHECK(plus - p == 1 && p - plus == -1 && plus - minus == 2, "difference of pointers next to " << who);
    }
}
void compare(const Ptr& p, const Ptr& q, int a, int b, const std::string& who)
{
    const void *x = a == kNull ? nullptr : mem + a, *y = b == kNull ? nullptr : mem + b;
    Item* raw = static_cast<Item*>(const_cast<void*>(y));
    std::less<const void*> lt;
    MC_CHECK((p == q) == (x == y) && (p != q) == (x != y) && (p < q) == lt(x, y) && (p <= q) == !lt(y, x) && (p > q) == lt(y, x) && (p >= q) == !lt(x, y), "comparison of " << who);
    MC_CHECK((p == raw) == (x == y) && (p != raw) == (x != y) && (p < raw) == lt(x, y) && (p <= raw) == !lt(y, x) && (p > raw) == lt(y, x) && (p >= raw) == !lt(x, y), "comparison of " << who << " as a plain pointer");
    MC_CHECK((raw == p) == (x == y) && (raw != p) == (x != y) && (raw < p) == lt(y, x) && (raw <= p) == !lt(x, y) && (raw > p) == lt(x, y) && (raw >= p) == !lt(y, x), "comparison of a plain pointer with the first of " << who);
    if (a != kNull && b != kNull && (a - b) % kItem == 0)
        MC_CHECK(p - q == (a - b) / kItem && p - raw == (a - b) / kItem && raw - p == (b - a) / kItem, "difference of " << who);
}

enum Kind { Raw, Copy, Build, Swap, Inc, PostInc, Dec, PostDec, Add2, Sub2, PointerTo, Self };
struct Op { Kind k; int i, j; };
std::vector<Op> ops(bool all)
{
    std::vector<Op> v;
    for (int i = 0; i < kCells; ++i)
    {
        for (int t = 0; t < kTargets; ++t) v.push_back({Raw, i, t});
        for (int j = 0; j < kCells; ++j) if (i != j) { v.push_back({Copy, i, j}); v.push_back({Build, i, j}); if (i < j) v.push_back({Swap, i, j}); }
        for (Kind k : {Inc, PostInc, Dec, PostDec, Add2, Sub2, Self}) if (all || (k != PostDec && k != Sub2)) v.push_back({k, i, 0});
        v.push_back({PointerTo, i, 1});
    }
    return v;
}
std::string op_text(const Op& o)
{
    static const char* n[] = {"=", "= copy of", "built from", "swap with", "++", "post ++", "--", "post --", "+= 2", "-= 2", "= pointer_to", "= itself"};
    std::string s = std::string(cell_name[o.i]) + " " + n[o.k];
    if (o.k == Raw || o.k == PointerTo) s += std::string(" ") + target_name[o.j];
    if (o.k == Copy || o.k == Build || o.k == Swap) s += std::string(" ") + cell_name[o.j];
    return s;
}
struct World : mc::System
{
    const std::vector<Op>& v;
    Region a{mem + kA, mem + kAe}, b{mem + kB, mem + kBe}, c{mem + kC, mem + kCe, true}, a2{mem + kA2, mem + kA2 + 256};
    Model m[kCells];
    Ptr& cell(int i) { return *reinterpret_cast<Ptr*>(mem + cell_at[i]); }
    explicit World(const std::vector<Op>& o) : v(o)
    {
        ms::MemoryResourceRegistry::getInstance().clear();
        ms::EnableOffsetPtrBoundsChecking(true);
        std::memset(mem, 0, sizeof mem);
        auto& r = ms::MemoryResourceRegistry::getInstance();
        MC_CHECK(r.insert_resource({11, &a}) && r.insert_resource({12, &b}) && r.insert_resource({13, &c}) && r.insert_resource({14, &a2}), "registering the regions");
        for (int i = 0; i < kCells; ++i) new (mem + cell_at[i]) Ptr{};
        for (int i = 0; i < kCells; ++i) m[i].b = home(cell_at[i]);
    }
    ~World() override { ms::MemoryResourceRegistry::getInstance().clear(); }
    Item* at(int t) { return t == kNull ? nullptr : reinterpret_cast<Item*>(mem + t); }
    void set_from(int i, Model from, int from_at)
    {
        m[i].t = from.t;
        m[i].b = home(cell_at[i]);
        if (m[i].b.e == 0 && from.t != kNull) m[i].b = home(from_at).e ? home(from_at) : from.b;
    }
    bool move(int i, int by)
    {
        if (m[i].t == kNull) return false;
        int t = m[i].t + by * kItem;
        if (t < 64 || t > kSize - 128) return false;
        m[i].t = t;
        return true;
    }
    bool apply(int n) override
    {
        const Op& o = v[static_cast<std::size_t>(n)];
        Ptr& p = cell(o.i);
        Model before = m[o.i];
        switch (o.k)
        {
            case Raw: p = at(target_at[o.j]); m[o.i] = Model{target_at[o.j], home(cell_at[o.i])}; break;
            case PointerTo: p = Ptr::pointer_to(*at(target_at[o.j])); m[o.i] = Model{target_at[o.j], home(cell_at[o.i])}; break;
            case Copy: p = cell(o.j); set_from(o.i, m[o.j], cell_at[o.j]); break;
            case Build: p.~Ptr(); new (&p) Ptr(cell(o.j)); set_from(o.i, m[o.j], cell_at[o.j]); break;
            case Swap:
            {
                swap(p, cell(o.j));
                Model mi = m[o.i], mj = m[o.j];
                set_from(o.i, mj, cell_at[o.j]); set_from(o.j, mi, cell_at[o.i]);
                break;
            }
            case Self: { Ptr& q = p; p = q; break; }
            case Inc: if (!move(o.i, 1)) return false; MC_CHECK(&++p == &p, "++ refers to another pointer"); break;
            case Dec: if (!move(o.i, -1)) return false; MC_CHECK(&--p == &p, "-- refers to another pointer"); break;
            case Add2: if (!move(o.i, 2)) return false; p += 2; break;
            case Sub2: if (!move(o.i, -2)) return false; p -= 2; break;
            case PostInc: { if (!move(o.i, 1)) return false; Ptr old = p++; judge(old, "the previous value of a pointer", before); break; }
            case PostDec: { if (!move(o.i, -1)) return false; Ptr old = p--; judge(old, "the previous value of a pointer", before); break; }
        }
        return true;
    }
    std::string canon() override
    {
        std::ostringstream o;
        for (auto& x : m) o << x.t << ':' << x.b.b << ' ';
        return o.str();
    }
    void finish() override
    {
        for (int i = 0; i < kCells && !mc::failed(); ++i)
        {
            judge(cell(i), cell_name[i], m[i]);
            convert(cell(i), cell_name[i], m[i], home(cell_at[i]).e == 0);
            for (int j = 0; j < kCells; ++j) compare(cell(i), cell(j), m[i].t, m[j].t, std::string(cell_name[i]) + " and " + cell_name[j]);
        }
        // the region as another mapping of the same memory shows it
        std::memcpy(mem + kA2, mem + kA, kAe - kA);
        for (int i = 0; i < kCells && !mc::failed(); ++i)
        {
            if (cell_at[i] < kA || cell_at[i] >= kAe) continue;
            auto& p = *reinterpret_cast<Ptr*>(mem + cell_at[i] - kA + kA2);
            Model x{m[i].t == kNull ? kNull : m[i].t - kA + kA2, Bounds{kA2, kA2 + 256}};
            judge(p, std::string(cell_name[i]) + " in another mapping", x);
            convert(p, std::string(cell_name[i]) + " in another mapping", x, false);
        }
        // without bounds checking everything resolves
        ms::EnableOffsetPtrBoundsChecking(false);
        for (int i = 0; i < kCells && !mc::failed(); ++i) access("unchecked get", cell_name[i], m[i].t, false, [&] { return cell(i).get(); });
        ms::EnableOffsetPtrBoundsChecking(true);
    }
};
void histories()
{
    static std::vector<Op> v; v = ops(mc::thorough());
    mc::bfs("pointer histories", mc::BfsConfig{mc::tier(3, 4)}, static_cast<int>(v.size()), [](int i) { return op_text(v[static_cast<std::size_t>(i)]); },
            [] { return std::make_unique<World>(v); });
}

// ---- every placement of pointer and target around the ends of a region ----
template <int N>
void placement(int cell)
{
    using Blob = std::array<char, N>;
    using P = OffsetPtr<Blob>;
    constexpr int rb = 1024, re = rb + 96;
    ms::MemoryResourceRegistry::getInstance().clear();
    ms::EnableOffsetPtrBoundsChecking(true);
    Region r{mem + rb, mem + re};
    ms::MemoryResourceRegistry::getInstance().insert_resource({21, &r});
    std::memset(mem, 0, sizeof mem);
    bool in = cell >= rb && cell + kPtr <= re;
    bool apart = cell + kPtr < rb || cell > re;
    bool touching = cell + kPtr == rb || cell == re;      // either answer is right: nothing overlaps
    std::ostringstream o; o << "a pointer at region start" << std::showpos << cell - rb;
    std::string who = o.str();
    auto& p = *new (mem + cell) P{};
    if (!touching && (in || apart)) access("get", who, kNull, false, [&] { return p.get(); });
    for (int t = rb - N - 9; t <= re + 9 && !mc::failed() && !touching; ++t)
    {
        if (t == cell + 1) continue;                      // stands for null, assigning it terminates
        p = reinterpret_cast<Blob*>(mem + t);
        bool dead = in ? (t < rb || t + N > re) : !apart;
        access("get", who, t, dead, [&] { return p.get(); });
        access("*", who, t, dead, [&] { return &*p; });
        P q{p};
        bool far = at_of(&q) < 0 || at_of(&q) >= kSize;
        MC_CHECK(far, "the stack lies where it should not");
        bool region_src = cell >= rb && cell <= re;
        access("get of a local copy", who, t, region_src && (t < rb || t + N > re), [&] { return q.get(); });
        P w{q};
        access("get of a copy of a local copy", who, t, region_src && (t < rb || t + N > re), [&] { return w.get(); });
        w = reinterpret_cast<Blob*>(mem + rb + 40);
        access("get of a local pointer set anew", who, rb + 40, false, [&] { return w.get(); });
        OffsetPtr<void> v{p};
        access("typed get of a local void copy", who, t, region_src && (t < rb || t + N > re), [&] { return v.get<Blob>(); });
        // element access from a fixed base
        int base = rb + 40;
        if ((t - base) % N == 0 && cell + 1 != base && t != cell + 1)
        {
            p = reinterpret_cast<Blob*>(mem + base);
            access("[]", who, t, dead, [&] { return &p[(t - base) / N]; });
            P s{p};
            access("[] of a local copy", who, t, region_src && (t < rb || t + N > re), [&] { return &s[(t - base) / N]; });
        }
    }
    ms::MemoryResourceRegistry::getInstance().clear();
}
void placements()
{
    mc::explore("placements around a region", mc::Config{0}, [] {
        int step = mc::tier(8, 1);
        int n = mc::choose(4, "size of the target"), c = mc::choose((32 + 96 + 16) / step, "place of the pointer");
        int cell = 1024 - 32 + c * step;
        switch (n) { case 0: placement<1>(cell); break; case 1: placement<8>(cell); break; case 2: placement<24>(cell); break; default: placement<97>(cell); }
    });
}

// ---- addresses and sizes at the ends of their ranges ----
void arithmetic()
{
    mc::explore("boundary arithmetic", mc::Config{0}, [] {
        using U = std::uint64_t; using S = std::int64_t; using W = __int128;
        static const U us[] = {0, 1, 2, 7, 8, 9, 4096, (1ull << 32) - 1, 1ull << 32, (1ull << 63) - 2, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, (1ull << 63) + 2, ~0ull - 8, ~0ull - 1, ~0ull};
        constexpr int n = sizeof us / sizeof us[0];
        U a = us[mc::choose(n, "first")], b = us[mc::choose(n, "second")];
        W wa = static_cast<W>(a), wb = static_cast<W>(b);
        auto u = [&](const char* what, W want, auto f) {
            bool fits = want >= 0 && want <= static_cast<W>(~0ull); U got = 0;
            bool d = mc::dies([&] { got = static_cast<U>(f()); });
            MC_CHECK(d == !fits && (d || static_cast<W>(got) == want), what << " of " << a << " and " << b << (d ? " terminates" : " is wrong"));
        };
        auto s = [&](const char* what, W want, auto f) {
            bool fits = want >= std::numeric_limits<S>::min() && want <= std::numeric_limits<S>::max(); S got = 0;
            bool d = mc::dies([&] { got = static_cast<S>(f()); });
            MC_CHECK(d == !fits && (d || static_cast<W>(got) == want), what << " of " << a << " and " << b << (d ? " terminates" : " is wrong"));
        };
        W sb = static_cast<S>(b), sa = static_cast<S>(a);
        u("address plus size", wa + wb, [&] { return ms::AddOffsetToPointerAsInteger(a, b); });
        u("address minus size", wa - wb, [&] { return ms::SubtractOffsetFromPointerAsInteger(a, b); });
        u("address plus offset", wa + sb, [&] { return ms::AddSignedOffsetToPointerAsInteger(a, static_cast<S>(b)); });
        s("distance of addresses", wa - wb, [&] { return ms::SubtractPointersBytes(reinterpret_cast<void*>(a), reinterpret_cast<void*>(b)); });
        s("offset plus size", sa + wb, [&] { return ms::AddUnsignedToSigned<S>(static_cast<S>(a), b); });
        s("offset minus size", sa - wb, [&] { return ms::SubtractUnsignedFromSigned<S>(static_cast<S>(a), b); });
        u("absolute value", sa < 0 ? -sa : sa, [&] { return ms::AbsoluteValue<S>(static_cast<S>(a)); });
        // bounds: both ends or none
        bool d = mc::dies([&] {
            ms::MemoryRegionBounds x{a, b};
            MC_CHECK(x.has_value() == (a != 0) && x.GetStartAddress() == a && x.GetEndAddress() == b, "bounds do not keep their ends");
            ms::MemoryRegionBounds y; MC_CHECK(!y.has_value(), "empty bounds have a value");
            y.Set(a, b); MC_CHECK(x == y && !(x != y), "equal bounds compare unequal");
            ms::MemoryRegionBounds z{a, b == 0 ? 0 : b ^ 1 ? b ^ 1 : b}; MC_CHECK((x == z) == (z.GetEndAddress() == b), "different bounds compare equal");
            y.Reset(); MC_CHECK(!y.has_value() && y == ms::MemoryRegionBounds{}, "reset bounds keep a value");
        });
        MC_CHECK(d == ((a == 0) != (b == 0)), "bounds of " << a << " and " << b << (d ? " terminate" : " are accepted"));
    });
}
}  // namespace

MC_CASE(M01, histories) { histories(); }
MC_CASE(M01, placements) { placements(); }
MC_CASE(M01, arithmetic) { arithmetic(); }
