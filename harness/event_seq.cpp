// E02 delivery and E03 slot choice: every sequence of operations, against a list-of-samples reference model.
#include "event_world.h"
#include <algorithm>

namespace
{
struct Cfg { int slots; std::vector<int> max; bool b; int in_flight; std::uint32_t base{0}; };

struct Seq final : mc::System
{
    Cfg c;
    World w;
    Channel qm;
    std::optional<Channel> b;
    Producer p;
    std::deque<Consumer> cs;
    // reference model
    struct Slot { enum K { Free, Writing, Ready } k{Free}; std::uint32_t ts{0}; std::vector<int> refs; };
    std::vector<Slot> m;
    std::vector<int> inflight;
    std::vector<std::uint32_t> last;

    explicit Seq(const Cfg& cfg) : c(cfg), w(cfg.slots), qm((arena(0).reset(), arena(0)), cfg.slots, 4), b(), p((mk_b(), w), qm, b ? &*b : nullptr), m(cfg.slots), last(cfg.max.size(), 0)
    {
        for (std::size_t i = 0; i < c.max.size(); ++i)
            cs.emplace_back(w, (b && i % 2 == 0) ? *b : qm, static_cast<int>(i), c.max[i]);
        for (auto& s : m) s.refs.assign(c.max.size(), 0);
        p.ts = c.base;
    }
    void mk_b() { if (c.b) b.emplace(arena(0), c.slots, 4); }
    // ops: 0 alloc, 1..in_flight: ready(k), next in_flight: discard(k), then per consumer: get1,get2,getmax,num,rel_old,rel_new
    static int n_ops(const Cfg& c) { return 1 + 2 * c.in_flight + 6 * static_cast<int>(c.max.size()); }
    static std::string name(const Cfg& c, int op)
    {
        if (op == 0) return "allocate";
        --op;
        if (op < c.in_flight) return "publish #" + std::to_string(op);
        op -= c.in_flight;
        if (op < c.in_flight) return "discard #" + std::to_string(op);
        op -= c.in_flight;
        const char* n[] = {"get 1", "get 2", "get all", "count new", "release oldest", "release newest"};
        return "consumer " + std::to_string(op / 6) + " " + n[op % 6];
    }
    bool apply(int op) override
    {
        if (op == 0)
        {
            if (static_cast<int>(inflight.size()) >= c.in_flight) return false;
            bool any_free = false; std::uint32_t oldest = 0; bool any = false;
            for (auto& s : m)
            {
                if (s.k == Slot::Free) any_free = true;
                if (s.k == Slot::Ready && std::all_of(s.refs.begin(), s.refs.end(), [](int r) { return r == 0; }))
                {
                    if (!any || s.ts < oldest) oldest = s.ts;
                    any = true;
                }
            }
            auto r = p.alloc();
            MC_CHECK(r.has_value() == (any_free || any), "allocation " << (r ? "succeeded" : "failed") << " but " << (any_free || any ? "a" : "no") << " slot is free");
            if (mc::failed() || !r) return true;
            Slot& s = m[*r];
            if (any_free) MC_CHECK(s.k == Slot::Free, "a sample was overwritten although an empty slot exists");
            else MC_CHECK(s.k == Slot::Ready && s.ts == oldest, "allocation reused the slot of sample " << s.ts << " instead of the oldest unused " << oldest);
            for (int x : s.refs) MC_CHECK(x == 0, "allocated a slot that a consumer holds");
            s.k = Slot::Writing; s.ts = 0;
            inflight.push_back(*r);
            return true;
        }
        --op;
        if (op < c.in_flight)
        {
            if (op >= static_cast<int>(inflight.size())) return false;
            int s = inflight[op]; inflight.erase(inflight.begin() + op);
            p.fill(s); p.ready(s);
            m[s].k = Slot::Ready; m[s].ts = p.ts;
            MC_CHECK(p.comp->GetLatestTimestamp() == p.ts, "latest time stamp is " << p.comp->GetLatestTimestamp() << ", expected " << p.ts);
            return true;
        }
        op -= c.in_flight;
        if (op < c.in_flight)
        {
            if (op >= static_cast<int>(inflight.size())) return false;
            int s = inflight[op]; inflight.erase(inflight.begin() + op);
            p.comp->Discard(static_cast<lola::SlotIndexType>(s));
            m[s].k = Slot::Free;
            return true;
        }
        op -= c.in_flight;
        const int ci = op / 6; op %= 6;
        Consumer& k = cs[ci];
        std::vector<std::pair<std::uint32_t, int>> fresh;
        for (int i = 0; i < c.slots; ++i) if (m[i].k == Slot::Ready && m[i].ts > last[ci]) fresh.push_back({m[i].ts, i});
        std::sort(fresh.begin(), fresh.end());
        if (op < 3)
        {
            const int room = k.max - static_cast<int>(k.held.size());
            int n = op == 2 ? room : op + 1;
            if (n > room || (op == 2 && room < 3) || n == 0) return false;
            std::vector<std::pair<std::uint32_t, int>> want = fresh;
            if (static_cast<int>(want.size()) > n) want.erase(want.begin(), want.end() - n);
            const std::size_t was = k.held.size();
            const int got = k.get(static_cast<std::size_t>(n));
            MC_CHECK(got == static_cast<int>(want.size()), "consumer " << ci << " asked for " << n << " samples with " << fresh.size() << " new ones and got " << got);
            if (mc::failed()) return true;
            for (int i = 0; i < got; ++i)
            {
                MC_CHECK(k.held[was + i].ts == want[i].first && k.held[was + i].slot == want[i].second, "consumer " << ci << " delivery #" << i << " is sample " << k.held[was + i].ts << ", expected " << want[i].first);
                m[want[i].second].refs[ci]++;
            }
            if (!want.empty()) last[ci] = want.back().first;
            return true;
        }
        if (op == 3)
        {
            const auto n = k.coll->GetNumNewSamplesAvailable();
            MC_CHECK(n == fresh.size(), "consumer " << ci << " is told " << n << " new samples, there are " << fresh.size());
            return true;
        }
        if (k.held.empty() || (op == 5 && k.held.size() < 2)) return false;
        auto it = op == 4 ? k.held.begin() : k.held.end() - 1;
        k.check(*it, "before release");
        m[it->slot].refs[ci]--;
        k.held.erase(it);
        return true;
    }
    std::string canon() override
    {
        // everything observable must agree with the model, in every state
        for (int i = 0; i < c.slots; ++i)
        {
            for (Channel* ch : {&qm, b ? &*b : nullptr})
            {
                if (!ch) continue;
                lola::EventSlotStatus st{ch->ctl->data_control.state_slots_[i].load()};
                int refs = 0;
                for (std::size_t k = 0; k < cs.size(); ++k) if (&cs[k].ch == ch) refs += m[i].refs[k];
                MC_CHECK(st.IsInWriting() == (m[i].k == Slot::Writing), "slot " << i << " write state differs from the model");
                MC_CHECK(st.IsInvalid() == (m[i].k == Slot::Free), "slot " << i << " emptiness differs from the model");
                if (m[i].k == Slot::Ready) MC_CHECK(st.GetTimeStamp() == m[i].ts && static_cast<int>(st.GetReferenceCount()) == refs, "slot " << i << " holds sample " << st.GetTimeStamp() << " with " << st.GetReferenceCount() << " users, the model says " << m[i].ts << " with " << refs);
            }
        }
        std::uint32_t latest = 0;
        for (auto& s : m) if (s.k == Slot::Ready) latest = std::max(latest, s.ts);
        MC_CHECK(p.comp->GetLatestTimestamp() == latest, "the latest time stamp is reported as " << p.comp->GetLatestTimestamp() << ", it is " << latest);
        for (int i = 0; i < c.slots; ++i) if (m[i].k == Slot::Ready) MC_CHECK(p.comp->GetEventSlotTimestamp(static_cast<lola::SlotIndexType>(i)) == m[i].ts, "the time stamp of slot " << i << " is reported as " << p.comp->GetEventSlotTimestamp(static_cast<lola::SlotIndexType>(i)));
        for (auto& k : cs) k.check_all("at any time");
        std::vector<std::uint32_t> t{0};
        for (auto& s : m) t.push_back(s.ts);
        for (auto l : last) t.push_back(l);
        std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
        auto rank = [&](std::uint32_t x) { return std::lower_bound(t.begin(), t.end(), x) - t.begin(); };
        std::ostringstream o;
        for (auto& s : m) { o << s.k << ":" << rank(s.ts) << ":"; for (int r : s.refs) o << r; o << " "; }
        for (auto l : last) o << "l" << rank(l);
        for (int i : inflight) o << "i" << i;
        for (auto& k : cs) { o << "h"; for (auto& h : k.held) o << h.slot << ","; }
        return o.str();
    }
    void finish() override { for (auto& k : cs) k.held.clear(); }
};

void run(const char* name, Cfg c, int depth)
{
    mc::BfsConfig b; b.max_depth = depth;
    mc::bfs(name, b, Seq::n_ops(c), [c](int op) { return Seq::name(c, op); }, [c] { return std::make_unique<Seq>(c); });
}
}  // namespace

MC_CASE(E02, seq_one_consumer) { run("seq_one_consumer", {mc::tier(3, 4), {mc::tier(2, 3)}, false, 2}, 40); }
MC_CASE(E02, seq_large_stamps) { run("seq_beyond_31_bit", {3, {2}, false, 1, 0x7ffffffdu}, 14); run("seq_beyond_16_bit", {3, {2}, true, 1, 0xfffdu}, 14); }
MC_CASE(E02, seq_two_consumers) { run("seq_two_consumers", {3, {2, 1}, false, 1}, mc::tier(12, 40)); }
MC_CASE(E02, seq_two_levels) { run("seq_two_levels", {4, {2, 1}, true, 1}, mc::tier(10, 40)); }
MC_CASE(E03, slots_3) { run("slots_3", {3, {2}, false, 3}, 40); }
MC_CASE(E03, slots_large_stamps) { run("slots_beyond_31_bit", {3, {2}, true, 1, 0x7ffffffdu}, 14); run("slots_high", {3, {2}, false, 1, 0xffff0000u}, 12); }
MC_CASE(E03, slots_4) { run("slots_4", {4, {2}, false, 1}, mc::tier(14, 60)); }
MC_CASE(E03, slots_two_levels) { run("slots_two_levels", {4, {1, 1}, true, 2}, mc::tier(12, 40)); }
