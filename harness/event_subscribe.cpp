// E05: subscriber and slot limits, linearizability of concurrent subscribe/unsubscribe.
#include "event_world.h"
#include "lin.h"

namespace
{
using Ctl = lola::EventSubscriptionControl<>;
using Res = lola::SubscribeResult;
struct Op { bool sub; int n; Res r; };
struct St { int subs{0}, slots{0}; };

bool step(St& s, const Op& o, int max_slots, int max_subs, bool enforce)
{
    if (!o.sub) { if (s.subs < 1 || s.slots < o.n) return false; s.subs--; s.slots -= o.n; return true; }
    Res want = s.subs >= max_subs ? Res::kMaxSubscribersOverflow : (enforce && s.slots + o.n > max_slots) ? Res::kSlotOverflow : Res::kSuccess;
    if (o.r != want) return false;
    if (want == Res::kSuccess) { s.subs++; s.slots += o.n; }
    return true;
}
// Probes how much room is left: used at the end, through the public interface only.
St probe(Ctl& c, int max_slots, int max_subs, bool enforce)
{
    St s{max_subs, max_slots};
    int k = 0;
    std::vector<int> taken;
    if (enforce)
    {
        // the largest single grant tells the free slots (if a subscriber is left)
        for (int n = max_slots; n >= 0; --n)
        {
            Res r = c.Subscribe(static_cast<std::uint16_t>(n));
            if (r == Res::kSuccess) { s.slots = max_slots - n; taken.push_back(n); break; }
            if (r == Res::kMaxSubscribersOverflow) { s.slots = -1; break; }
        }
    }
    else s.slots = -1;
    while (c.Subscribe(0) == Res::kSuccess) { taken.push_back(0); if (++k > 300) break; }
    s.subs = max_subs - static_cast<int>(taken.size());
    for (int n : taken) c.Unsubscribe(static_cast<std::uint16_t>(n));
    return s;
}

struct Script { std::vector<int> sizes; bool keep; };  // each size: subscribe(size), then unsubscribe unless the last is kept

void conc(const char* name, mc::Config cfg, int max_slots, int max_subs, bool enforce, std::vector<Script> threads)
{
    mc::explore(name, cfg, [=] {
        arena(0).reset();
        auto* c = arena(0).construct<Ctl>(static_cast<std::uint16_t>(max_slots), static_cast<std::uint8_t>(max_subs), enforce);
        mc::focus(c, sizeof(*c));
        History<Op> h;
        St granted;
        for (auto& sc : threads)
            mc::spawn([&, sc] {
                for (std::size_t i = 0; i < sc.sizes.size(); ++i)
                {
                    Op o{true, sc.sizes[i], Res::kSuccess};
                    auto e = h.begin(o);
                    o.r = c->Subscribe(static_cast<std::uint16_t>(o.n));
                    h.end(e, o);
                    if (o.r != Res::kSuccess) continue;
                    mc::ghost(&granted);
                    granted.subs++; granted.slots += o.n;
                    MC_CHECK(granted.subs <= max_subs, granted.subs << " subscribers granted, limit " << max_subs);
                    MC_CHECK(!enforce || granted.slots <= max_slots, granted.slots << " slots granted, limit " << max_slots);
                    if (sc.keep && i + 1 == sc.sizes.size()) continue;
                    mc::ghost(&granted);
                    granted.subs--; granted.slots -= o.n;
                    Op u{false, o.n, Res::kSuccess};
                    e = h.begin(u);
                    c->Unsubscribe(static_cast<std::uint16_t>(u.n));
                    h.end(e, u);
                }
            }, "subscriber");
        mc::join_all();
        std::string o;
        bool retry_failure = false;
        for (auto& e : h.ev) { o += std::to_string(static_cast<int>(e.op.r)); retry_failure |= e.op.r == Res::kUpdateRetryFailure; }
        mc::outcome(o);
        // Refusal for contention: legitimate only if some other operation overlapped or a spurious failure was injected; it has no effect.
        std::function<bool(St&, const Op&)> st = [&](St& s, const Op& op) {
            if (op.sub && op.r == Res::kUpdateRetryFailure) return true;
            return step(s, op, max_slots, max_subs, enforce);
        };
        for (auto& e : h.ev)
            if (e.op.r == Res::kUpdateRetryFailure && cfg.spurious_cas == 0)
            {
                int overlapping = 0;
                for (auto& f : h.ev) if (&f != &e && f.inv < e.ret && f.ret > e.inv) ++overlapping;
                MC_CHECK(overlapping > 0, "a subscription was refused for contention without any");
            }
        MC_CHECK(h.linearizable(St{}, st), "the results " << o << " of the concurrent calls have no sequential explanation");
        // what is left matches the grants
        mc::NoPreempt np;
        auto left = probe(*c, max_slots, max_subs, enforce);
        MC_CHECK(left.subs == granted.subs, left.subs << " subscribers are accounted, " << granted.subs << " hold a subscription");
        MC_CHECK(left.slots == -1 || left.slots == granted.slots, left.slots << " slots are accounted, " << granted.slots << " are held");
    });
}

struct Seq final : mc::System
{
    int max_slots, max_subs; bool enforce;
    std::vector<int> sizes;
    Ctl* c;
    St s;
    std::vector<int> held;
    Seq(int ms, int mb, bool e, std::vector<int> sz, int prefill) : max_slots(ms), max_subs(mb), enforce(e), sizes(sz)
    {
        arena(0).reset();
        c = arena(0).construct<Ctl>(static_cast<std::uint16_t>(ms), static_cast<std::uint8_t>(mb), e);
        for (int i = 0; i < prefill; ++i) apply(0);
    }
    bool apply(int op) override
    {
        if (op < static_cast<int>(sizes.size()))
        {
            int n = sizes[op];
            // sums that leave the 16 bit budget are outside the interface when no limit is enforced
            if (!enforce && s.slots + n > 0xffff) return false;
            Res r = c->Subscribe(static_cast<std::uint16_t>(n));
            St t = s;
            MC_CHECK(step(t, {true, n, r}, max_slots, max_subs, enforce), "subscribing " << n << " with " << s.subs << "/" << s.slots << " taken of " << max_subs << "/" << max_slots << " answered " << lola::ToString(r));
            if (r == Res::kSuccess) { s.subs++; s.slots += n; held.push_back(n); std::sort(held.begin(), held.end()); }
            return true;
        }
        op -= static_cast<int>(sizes.size());
        int n = sizes[op];
        auto it = std::find(held.begin(), held.end(), n);
        if (it == held.end()) return false;
        held.erase(it);
        c->Unsubscribe(static_cast<std::uint16_t>(n));
        s.subs--; s.slots -= n;
        return true;
    }
    std::string canon() override { std::string o; for (int n : held) o += std::to_string(n) + ","; return o; }
    void finish() override
    {
        auto left = probe(*c, max_slots, max_subs, enforce);
        MC_CHECK(left.subs == s.subs && (left.slots == -1 || left.slots == s.slots), "accounted " << left.subs << "/" << left.slots << ", held " << s.subs << "/" << s.slots);
    }
};
void seq(const char* name, int ms, int mb, bool e, std::vector<int> sz, int prefill = 0)
{
    mc::BfsConfig c; c.max_depth = mc::tier(12, 30); c.max_states = 200000;
    mc::bfs(name, c, 2 * static_cast<int>(sz.size()), [sz](int op) { int n = static_cast<int>(sz.size()); return (op < n ? "subscribe " : "unsubscribe ") + std::to_string(sz[op % n]); },
            [=] { return std::make_unique<Seq>(ms, mb, e, sz, prefill); });
}
}  // namespace
MC_CASE(E05, limits_seq) { seq("limits_seq_small", 3, 2, true, {0, 1, 2, 3, 4}); seq("limits_seq_more", 5, 4, true, {1, 2, 5}); seq("limits_seq_unlimited", 3, 3, false, {1, 3, 7}); }
MC_CASE(E05, limits_seq_wide) { seq("limits_seq_wide", 65535, 3, true, {1, 32768, 65534, 65535}); seq("limits_seq_wide_unlimited", 4, 3, false, {1, 32768, 65535}); seq("limits_seq_255", 300, 255, true, {1, 44, 45, 47}, 253); }
MC_CASE(E05, last_slot) { conc("last_slot", {mc::tier(5, 9)}, 2, 4, true, {{{2}, true}, {{1, 2}, true}}); }
MC_CASE(E05, last_subscriber) { conc("last_subscriber", {mc::tier(5, 9)}, 9, 1, true, {{{1, 2}, true}, {{3, 4}, true}}); }
MC_CASE(E05, three) { conc("three", {mc::tier(3, 6)}, 3, 2, true, {{{1, 2}, true}, {{2}, true}, {{1, 3}, false}}); }
MC_CASE(E05, three_unlimited) { conc("three_unlimited", {mc::tier(3, 6)}, 1, 2, false, {{{1, 2}, true}, {{2}, false}, {{3}, true}}); }
MC_CASE(E05, spurious) { mc::Config c{mc::tier(3, 6)}; c.spurious_cas = mc::tier(2, 3); conc("spurious", c, 3, 2, true, {{{1, 2}, true}, {{2}, false}}); }
