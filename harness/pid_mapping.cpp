// R04: application identifier -> process id table.
#include "arena.h"
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping.h"
#include "score/memory/shared/polymorphic_offset_ptr_allocator.h"
#include <optional>

namespace lola = score::mw::com::impl::lola;
namespace
{
using Alloc = score::memory::shared::PolymorphicOffsetPtrAllocator<lola::ApplicationIdPidMappingEntry>;
using Map = lola::ApplicationIdPidMapping<Alloc>;

Map* make(int n)
{
    arena(0).reset();
    auto* p = static_cast<Map*>(arena(0).allocate(sizeof(Map), alignof(Map)));
    return new (p) Map(static_cast<std::uint16_t>(n), Alloc(arena(0)));
}
std::string str(std::optional<pid_t> p) { return p ? std::to_string(*p) : "none"; }

// How many further identifiers fit?
int room(Map& m, int limit)
{
    int k = 0;
    for (; k <= limit; ++k) { auto r = m.RegisterPid(static_cast<std::uint32_t>(900000 + k), 5000 + k); if (!r) break; MC_CHECK(*r == 5000 + k, "a new identifier got process " << *r); }
    return k;
}

void conc(const char* name, mc::Config cfg, int size, std::vector<std::vector<std::uint32_t>> ids, bool pre_register)
{
    mc::explore(name, cfg, [=] {
        Map* m = make(size);
        mc::focus(arena(0).buf, arena(0).used);
        std::map<std::uint32_t, pid_t> known;
        if (pre_register) { mc::NoPreempt np; MC_CHECK(m->RegisterPid(1, 77) == std::optional<pid_t>(77), "first registration"); known[1] = 77; }
        std::vector<std::string> log(ids.size());
        int refused = 0;
        std::size_t distinct = 0;
        { std::set<std::uint32_t> s; for (auto& v : ids) s.insert(v.begin(), v.end()); if (pre_register) s.insert(1); distinct = s.size(); }
        for (std::size_t t = 0; t < ids.size(); ++t)
            mc::spawn([&, t] {
                pid_t pid = static_cast<pid_t>(100 * (t + 1));
                for (auto id : ids[t])
                {
                    ++pid;
                    auto r = m->RegisterPid(id, pid);
                    mc::ghost(&known);
                    log[t] += str(r) + " ";
                    auto it = known.find(id);
                    if (it != known.end()) MC_CHECK(r == std::optional<pid_t>(it->second), "identifier " << id << " had process " << it->second << ", registering again returned " << str(r));
                    else if (r) MC_CHECK(*r == pid, "new identifier " << id << " of process " << pid << " got " << str(r));
                    if (r) known[id] = pid; else ++refused;
                }
            }, "app");
        mc::join_all();
        std::string o; for (auto& l : log) o += l + "|";
        mc::outcome(o);
        if (distinct <= static_cast<std::size_t>(size)) MC_CHECK(refused == 0, "a registration was refused although there is room");
        mc::NoPreempt np;
        // every identifier is there with its last process
        for (auto& k : known) { auto r = m->RegisterPid(k.first, k.second); MC_CHECK(r == std::optional<pid_t>(k.second), "identifier " << k.first << " is mapped to " << str(r) << " instead of " << k.second); }
        int left = room(*m, size);
        MC_CHECK(left == size - static_cast<int>(known.size()), "room for " << left << " more identifiers, expected " << size - static_cast<int>(known.size()));
    });
}

// The process dies at any point of its registration; its successor and another application carry on.
void crash(const char* name, int size, int pre, bool other, bool second_crash)
{
    mc::Config c{pre}; c.crashes = second_crash ? 2 : 1;
    mc::explore(name, c, [=] {
        Map* m = make(size);
        mc::focus(arena(0).buf, arena(0).used);
        mc::crash_region(arena(0).buf, arena(0).used);
        auto life = [&](std::uint32_t id, pid_t pid, std::optional<pid_t>* out) {
            int p = mc::new_proc(); mc::crashable(p);
            int t = mc::spawn([&, id, pid, out] { auto r = m->RegisterPid(id, pid); mc::ghost(out); *out = r; }, "app", p);
            return std::pair<int, int>(p, t);
        };
        std::optional<pid_t> r1, r2, ro;
        auto a = life(7, 11, &r1);
        int ot = -1;
        if (other) ot = mc::spawn([&] { auto r = m->RegisterPid(8, 21); MC_CHECK(r == std::optional<pid_t>(21), "another application got " << str(r)); }, "other");
        mc::join(a.second);
        const bool died1 = mc::proc_crashed(a.first);
        if (!died1) MC_CHECK(r1 == std::optional<pid_t>(11), "registration returned " << str(r1));
        bool died2 = false;
        if (second_crash) { auto b = life(7, 12, &r2); mc::join(b.second); died2 = mc::proc_crashed(b.first); }
        if (ot >= 0) mc::join(ot);
        mc::NoPreempt np;
        auto r3 = m->RegisterPid(7, 13);
        mc::outcome(std::to_string(died1) + std::to_string(died2) + str(r3));
        // either the last life that reached the table, or this registration found it incomplete
        std::set<pid_t> ok;
        if (second_crash) { if (died2) { ok.insert(12); if (died1) { ok.insert(13); ok.insert(11);} else ok.insert(11); } else ok.insert(12); }
        else { ok.insert(11); if (died1) ok.insert(13); }
        MC_CHECK(r3 && ok.count(*r3), "after a restart the registration returned " << str(r3));
        auto r4 = m->RegisterPid(7, 14);
        MC_CHECK(r4 == std::optional<pid_t>(13), "registering again returned " << str(r4) << " instead of 13");
        if (other) { auto r5 = m->RegisterPid(8, 22); MC_CHECK(r5 == std::optional<pid_t>(21), "another application's entry became " << str(r5)); }
        int left = room(*m, size);
        MC_CHECK(left == size - 1 - (other ? 1 : 0), "room for " << left << " identifiers is left in a table of " << size);
    });
}
struct Seq final : mc::System
{
    Map* m; int size; int n = 0; std::map<std::uint32_t, pid_t> ref; std::vector<std::uint32_t> ids;
    Seq(int s, std::vector<std::uint32_t> i) : m(make(s)), size(s), ids(i) {}
    bool apply(int op) override
    {
        auto id = ids[op / 2]; pid_t pid = op % 2 ? 0x7ffffffe : 4 + op;
        auto r = m->RegisterPid(id, pid);
        std::optional<pid_t> want;
        if (ref.count(id)) want = ref[id]; else if (static_cast<int>(ref.size()) < size) want = pid;
        MC_CHECK(r == want, "identifier " << id << " returned " << str(r) << ", expected " << str(want));
        if (want) ref[id] = pid;
        return true;
    }
    std::string canon() override { std::string s; for (auto& k : ref) s += std::to_string(k.first) + ":" + std::to_string(k.second) + " "; return s; }
};
}  // namespace
MC_CASE(R04, seq)
{
    std::vector<std::uint32_t> ids{0, 1, 0x10000, 0xffffffff};
    for (int size : {1, 2, 3}) { mc::BfsConfig c; c.max_depth = 12; mc::bfs("seq_" + std::to_string(size), c, 8, [ids](int op) { return "register " + std::to_string(ids[op / 2]) + (op % 2 ? " big pid" : ""); }, [=] { return std::make_unique<Seq>(size, ids); }); }
}
MC_CASE(R04, two_new) { conc("two_new", {mc::tier(3, 6)}, 2, {{1}, {2}}, false); }
MC_CASE(R04, two_again) { conc("two_again", {mc::tier(3, 5)}, 3, {{1, 1}, {2, 2}}, true); }
MC_CASE(R04, three_new) { conc("three_new", {mc::tier(2, 4)}, 3, {{1}, {2}, {3}}, false); }
MC_CASE(R04, too_many) { conc("too_many", {mc::tier(2, 3)}, 1, {{1}, {2}}, false); }
MC_CASE(R04, spurious) { mc::Config c{mc::tier(2, 3)}; c.spurious_cas = 2; conc("spurious", c, 2, {{1}, {2}}, false); }
MC_CASE(R04, crash1) { crash("crash1", 2, 0, false, false); crash("crash1_full", 1, 0, false, false); }
MC_CASE(R04, crash2) { crash("crash2", 2, 0, false, true); }
MC_CASE(R04, crash_other) { crash("crash_other", 2, mc::tier(2, 4), true, false); }
