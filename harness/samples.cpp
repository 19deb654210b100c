// E07: what a consumer may hold, and that everything it gives back is available again.
#include "event_world.h"
#include "stack.h"
#include "score/mw/com/impl/plumbing/sample_ptr.h"
#include "score/mw/com/impl/sample_reference_tracker.h"
namespace
{
using namespace stack;
using impl::SampleReferenceGuard; using impl::SampleReferenceTracker; using impl::TrackerGuardFactory;

// ---- the counter of one subscription, every sequence of operations --------------------------------------------------
struct TrackerSys final : mc::System
{
    static constexpr int kG = 3, kF = 2;
    std::unique_ptr<SampleReferenceTracker> t{new SampleReferenceTracker{2}};
    std::vector<std::optional<TrackerGuardFactory>> f{kF};
    std::vector<SampleReferenceGuard> g{kG};
    int max{2}; int fm[kF]{}; bool gm[kG]{};
    static constexpr int kOps = 6 + 2 + 6 + 9 + 3 + 3 + 3;
    static std::string name(int o)
    {
        if (o < 6) return "allocate " + std::to_string(o % 3 + 1) + " into factory " + std::to_string(o / 3); o -= 6;
        if (o < 2) return "drop factory " + std::to_string(o); o -= 2;
        if (o < 6) return "take guard " + std::to_string(o % 3) + " from factory " + std::to_string(o / 3); o -= 6;
        if (o < 9) return "guard " + std::to_string(o / 3) + " := guard " + std::to_string(o % 3); o -= 9;
        if (o < 3) return "drop guard " + std::to_string(o); o -= 3;
        if (o < 3) return "guard " + std::to_string(o) + " moved out and back"; o -= 3;
        return "start over with " + std::to_string(o + 1);
    }
    int used() { int n = 0; for (int i = 0; i < kF; ++i) n += fm[i]; for (bool b : gm) n += b; return n; }
    bool apply(int o) override
    {
        if (o < 6) { int i = o / 3, n = o % 3 + 1; if (f[i]) return false; int got = std::min(n, max - used()); f[i].emplace(t->Allocate(n)); fm[i] = got; MC_CHECK(int(f[i]->GetNumAvailableGuards()) == got, "asked for " << n << " of " << max << ", got " << f[i]->GetNumAvailableGuards() << " instead of " << got); return check(); } o -= 6;
        if (o < 2) { if (!f[o]) return false; f[o].reset(); fm[o] = 0; return check(); } o -= 2;
        if (o < 6)
        {
            int i = o / 3, j = o % 3; if (!f[i] || gm[j]) return false;
            auto x = f[i]->TakeGuard(); MC_CHECK(x.has_value() == (fm[i] > 0), "a factory with " << fm[i] << " guards " << (x ? "gives one" : "gives none"));
            if (x) { g[j] = std::move(*x); gm[j] = true; --fm[i]; MC_CHECK(int(f[i]->GetNumAvailableGuards()) == fm[i], "factory counts wrong"); }
            return check();
        } o -= 6;
        if (o < 9) { int a = o / 3, b = o % 3; auto& r = g[b]; g[a] = std::move(r); if (a != b) { gm[a] = gm[b]; gm[b] = false; } return check(); } o -= 9;
        if (o < 3) { g[o] = SampleReferenceGuard{}; gm[o] = false; return check(); } o -= 3;
        if (o < 3) { SampleReferenceGuard x{std::move(g[o])}; check(); g[o] = SampleReferenceGuard{}; check(); g[o] = std::move(x); return check(); } o -= 3;
        if (used()) return false; t->Reset(o + 1); max = o + 1; return check();
    }
    bool check()
    {
        MC_CHECK(int(t->GetNumAvailableSamples()) == max - used(), t->GetNumAvailableSamples() << " of " << max << " available while " << used() << " are in use");
        MC_CHECK(t->IsUsed() == (used() > 0), "the tracker is " << (t->IsUsed() ? "" : "not ") << "in use with " << used() << " references");
        return true;
    }
    std::string canon() override { std::ostringstream s; s << max; for (int i = 0; i < kF; ++i) s << (f[i] ? "f" : "-") << fm[i]; for (bool b : gm) s << b; return s.str(); }
    void finish() override { for (auto& x : f) x.reset(); g.clear(); g.resize(kG); for (int& x : fm) x = 0; for (bool& b : gm) b = false; check(); }
};
MC_CASE(E07, tracker)
{
    mc::bfs("reference counter: sequences", mc::BfsConfig{mc::tier(8, 12)}, TrackerSys::kOps, TrackerSys::name, [] { return std::unique_ptr<mc::System>(new TrackerSys); });
}

// ---- the counter under concurrent fetch and release -------------------------------------------------------------
void tracker_threads(const char* name, int max, int held, int ask1, int ask2, bool two_fetchers, int preempt, int spurious)
{
    mc::Config c{preempt}; c.spurious_cas = spurious;
    mc::explore(name, c, [=] {
        auto t = std::make_unique<SampleReferenceTracker>(max);
        std::vector<SampleReferenceGuard> hold;
        { auto f = t->Allocate(held); while (auto g = f.TakeGuard()) hold.push_back(std::move(*g)); }
        int in_use = held, peak = 0;   // ghost: granted and not yet given back
        auto fetch = [&](int n) {
            auto f = t->Allocate(n);
            mc::ghost(&in_use);
            const int got = int(f.GetNumAvailableGuards());
            MC_CHECK(got <= n, "asked for " << n << ", got " << got);
            return f;
        };
        std::vector<TrackerGuardFactory> got;
        got.reserve(2);
        const int a = mc::spawn([&] { auto f = fetch(ask1); mc::NoPreempt np; got.push_back(std::move(f)); }, "fetch");
        const int b = mc::spawn([&] { if (two_fetchers) { auto f = fetch(ask2); mc::NoPreempt np; got.push_back(std::move(f)); } else while (!hold.empty()) hold.pop_back(); }, two_fetchers ? "fetch 2" : "release");
        mc::join(a); mc::join(b);
        int n = 0; for (auto& f : got) n += int(f.GetNumAvailableGuards());
        const int left = int(t->GetNumAvailableSamples());
        const int now = n + int(hold.size());
        MC_CHECK(now <= max, now << " samples granted although only " << max << " may be held");
        MC_CHECK(left == max - now, left << " of " << max << " available while " << now << " are in use");
        const int want = two_fetchers ? std::min(ask1 + ask2, max - held) : std::min(ask1, max - held);
        MC_CHECK(n >= want, "granted " << n << " although " << want << " were available all the time");
        mc::outcome(std::to_string(n));
        got.clear(); hold.clear();
        MC_CHECK(int(t->GetNumAvailableSamples()) == max, "not everything came back");
        MC_CHECK(!t->IsUsed(), "still in use");
        (void)peak;
    });
}
MC_CASE(E07, tracker_threads)
{
    tracker_threads("counter: fetch against release", 2, 2, 2, 0, false, mc::tier(4, 6), 1);
    tracker_threads("counter: fetch against release, some free", 3, 2, 3, 0, false, mc::tier(4, 6), 1);
    tracker_threads("counter: two fetches", 3, 0, 2, 2, true, mc::tier(4, 6), 1);
    tracker_threads("counter: two fetches, one held", 3, 1, 1, 2, true, mc::tier(4, 6), 1);
}

// ---- the sample handles a user holds, over the whole stack -----------------------------------------------------
template <class T> struct Svc : T::Base
{
    using T::Base::Base;
    typename T::template Event<std::uint32_t> ev{*this, "ev"};
};
using Skel = impl::SkeletonWrapperClass<Svc>;
using Prox = impl::ProxyWrapperClass<Svc>;
using Ptr = impl::SamplePtr<std::uint32_t>;

struct HandleSys final : mc::System
{
    static constexpr int kP = 3, kSlots = 4;
    Stack s; std::optional<Skel> sk; std::optional<Prox> px; Ptr p[kP]; std::uint32_t v[kP]{};   // 0: empty
    int max{2}; std::uint32_t sent{0}, last{0}; bool sub{true};
    std::deque<std::uint32_t> ring;      // published samples still in their slots
    lola::EventControl* ec;
    static Plan plan() { Plan p; p.slots = kSlots; return p; }
    HandleSys() : s(plan())
    {
        sk.emplace(std::move(Skel::Create(s.provided()).value())); if (!sk->OfferService().has_value()) mc::violation("offer failed");
        px.emplace(std::move(Prox::Create(s.handle(false)).value())); if (!px->ev.Subscribe(2).has_value()) mc::violation("subscribe failed");
        ec = &s.event(QualityType::kASIL_QM);
    }
    static constexpr int kOps = 1 + 3 + 3 + 9 + 3 + 3 + 3 + 3;
    static std::string name(int o)
    {
        if (o < 1) return "send"; o -= 1;
        if (o < 3) return "fetch " + std::to_string(o + 1); o -= 3;
        if (o < 3) return "handle " + std::to_string(o) + " := null"; o -= 3;
        if (o < 9) return "handle " + std::to_string(o / 3) + " := handle " + std::to_string(o % 3); o -= 9;
        if (o < 3) return "swap " + std::to_string(o); o -= 3;
        if (o < 3) return "handle " + std::to_string(o) + " reset"; o -= 3;
        if (o < 3) return "handle " + std::to_string(o) + " moved out and back"; o -= 3;
        return std::vector<std::string>{"unsubscribe", "subscribe 1", "subscribe 2"}[o];
    }
    int held() { int n = 0; for (auto x : v) n += x != 0; return n; }
    bool apply(int o) override
    {
        if (o < 1)
        {
            ++sent; auto r = sk->ev.Send(sent); MC_CHECK(r.has_value(), "sending fails although at most " << max << " of " << kSlots << " slots are held");
            return check();
        } o -= 1;
        if (o < 3)
        {
            const int n = o + 1;
            if (!sub)
            {
                auto r = px->ev.GetNewSamples([](Ptr) noexcept { mc::violation("a sample is delivered without subscription"); }, n);
                MC_CHECK(!r.has_value(), "samples without subscription"); return check();
            }
            const int room = max - held(); int free = 0; for (int i = 0; i < kP; ++i) if (!v[i]) free = free;
            auto before = p[0] ? 0 : 0; (void)before;
            std::vector<std::pair<Ptr, std::uint32_t>> in;
            auto r = px->ev.GetNewSamples([&](Ptr q) noexcept { std::uint32_t x = *q; in.emplace_back(std::move(q), x); }, n);
            if (room == 0) { MC_CHECK(!r.has_value() && r.error() == impl::ComErrc::kMaxSamplesReached, "fetching with everything held " << (r.has_value() ? "succeeds" : "fails differently")); return check(); }
            MC_CHECK(r.has_value(), "fetch fails with room for " << room);
            MC_CHECK(int(in.size()) <= std::min(n, room), "fetch " << n << " with room for " << room << " delivers " << in.size());
            MC_CHECK(r.has_value() && *r == in.size(), "number of delivered samples misreported");
            for (auto& x : in)
            {
                MC_CHECK(x.second > last, "sample " << x.second << " after " << last); last = x.second;
                for (int i = 0; i < kP; ++i) if (!v[i]) { p[i] = std::move(x.first); v[i] = x.second; break; }
                MC_CHECK(!x.first, "a moved-from handle still claims to hold a sample"); MC_CHECK(x.first.get() == nullptr, "a moved-from handle still points to a sample");
            }
            if (int(in.size()) < std::min(n, room)) MC_CHECK(last == sent, "sample " << sent << " is not delivered with room for it");
            return check();
        } o -= 3;
        if (o < 3) { p[o] = nullptr; v[o] = 0; return check(); } o -= 3;
        if (o < 9) { int a = o / 3, b = o % 3; auto& r = p[b]; p[a] = std::move(r); if (a != b) { v[a] = v[b]; v[b] = 0; } return check(); } o -= 9;
        if (o < 3) { int b = (o + 1) % 3; if (o == 0) { p[0].Swap(p[1]); } else { using std::swap; swap(p[o], p[b]); } std::swap(v[o], v[b]); return check(); } o -= 3;
        if (o < 3) { p[o].Reset(); v[o] = 0; return check(); } o -= 3;
        if (o < 3) { { Ptr x{std::move(p[o])}; MC_CHECK(!p[o] && p[o].get() == nullptr, "a moved-from handle is not empty"); Ptr y; y = std::move(x); MC_CHECK(!x && x.get() == nullptr, "a moved-from handle is not empty"); p[o].Reset(std::move(y)); } return check(); } o -= 3;
        if (o == 0) { if (held()) return false; px->ev.Unsubscribe(); sub = false; return check(); }
        if (sub) { if (max == o) return false; auto r = px->ev.Subscribe(o); MC_CHECK(!r.has_value(), "subscribing again with another number is accepted"); return check(); }
        auto r = px->ev.Subscribe(o); MC_CHECK(r.has_value(), "subscribe fails"); sub = true; max = o; last = 0; return check();
    }
    bool check()
    {
        for (int i = 0; i < kP; ++i)
        {
            MC_CHECK(static_cast<bool>(p[i]) == (v[i] != 0), "handle " << i << (v[i] ? " lost its sample" : " claims to hold a sample"));
            MC_CHECK((p[i].get() != nullptr) == (v[i] != 0), "handle " << i << (v[i] ? " points nowhere" : " points to a sample it does not hold"));
            if (v[i] && p[i]) MC_CHECK(*p[i] == v[i], "handle " << i << " holds sample " << v[i] << " but shows " << *p[i]);
        }
        if (sub) MC_CHECK(int(px->ev.GetFreeSampleCount()) == max - held(), px->ev.GetFreeSampleCount() << " more samples may be fetched while " << held() << " of " << max << " are held");
        int refs = 0;
        for (auto& x : ec->data_control.state_slots_) { lola::EventSlotStatus st{x.load()}; if (!st.IsInvalid() && !st.IsInWriting()) refs += st.GetReferenceCount(); }
        MC_CHECK(refs == held(), refs << " references to slots while " << held() << " samples are held");
        return true;
    }
    std::string canon() override
    {
        // time stamps only matter relative to the newest
        std::ostringstream o; o << max << sub << "|" << sent - last << "|" << (last == 0);
        for (auto x : v) o << (x ? std::to_string(sent - x) : "-") << ",";
        for (auto& x : ec->data_control.state_slots_) { lola::EventSlotStatus st{x.load()}; o << (st.IsInvalid() ? "i" : std::to_string(int(sent) - int(st.GetTimeStamp()))) << ";"; }
        return o.str();
    }
    void finish() override { for (int i = 0; i < kP; ++i) { p[i] = nullptr; v[i] = 0; } check(); if (sub) px->ev.Unsubscribe(); px.reset(); sk.reset(); }
};
MC_CASE(E07, handles)
{
    mc::bfs("sample handles: sequences over the whole stack", mc::BfsConfig{mc::tier(10, 20)}, HandleSys::kOps, HandleSys::name, [] { return std::unique_ptr<mc::System>(new HandleSys); });
}

// ---- giving samples back on other threads while fetching ------------------------------------------------------
struct Open : impl::ProxyEventBase { static SampleReferenceTracker& of(impl::ProxyEventBase& b) { return *(b.*(&Open::tracker_)); } };
// Every thread but the fetching one drops samples it was handed; a provider sends as much as it wants.
void release_elsewhere(const char* name, int max, int sends, int releasers, int fetches, bool assign, int preempt)
{
    mc::explore(name, mc::Config{preempt}, [=] {
        Plan pl; pl.slots = max + 1;   // enough for everything the consumer may hold plus one in the making
        Stack s(pl);
        std::optional<Skel> sk; std::optional<Prox> px;
        std::vector<Ptr> hand(max);
        {
            mc::NoPreempt np;
            sk.emplace(std::move(Skel::Create(s.provided()).value())); MC_CHECK(sk->OfferService().has_value(), "offer");
            px.emplace(std::move(Prox::Create(s.handle(false)).value())); MC_CHECK(px->ev.Subscribe(max).has_value(), "subscribe");
            int k = 0;
            for (int i = 0; i < max; ++i) { MC_CHECK(sk->ev.Send(100 + i).has_value(), "send"); auto r = px->ev.GetNewSamples([&](Ptr p) noexcept { hand[k++] = std::move(p); }, 1); MC_CHECK(r.has_value() && *r == 1, "fetch"); }
            MC_CHECK(sk->ev.Send(200).has_value(), "send");
        }
        auto& st = s.event(QualityType::kASIL_QM).data_control.state_slots_;
        mc::focus(&st[0], st.size() * sizeof(st[0]));
        auto& tr = Open::of(px->ev); mc::focus(&tr, sizeof(tr));
        std::vector<Ptr> got; got.reserve(8);
        std::vector<int> th;
        th.push_back(mc::spawn([&] {
            for (int i = 0; i < fetches; ++i)
            {
                auto r = px->ev.GetNewSamples([&](Ptr p) noexcept { mc::NoPreempt np; got.push_back(std::move(p)); }, max);
                if (!r.has_value()) MC_CHECK(r.error() == impl::ComErrc::kMaxSamplesReached, "fetching fails");
                int refs = 0; { mc::NoPreempt np; for (auto& x : st) { lola::EventSlotStatus e{x.load()}; if (!e.IsInvalid() && !e.IsInWriting()) refs += e.GetReferenceCount(); } }
                MC_CHECK(refs <= max, refs << " slots referenced by a consumer that may hold " << max);
            }
        }, "fetch"));
        for (int i = 0; i < releasers; ++i) th.push_back(mc::spawn([&, i] { if (assign) { Ptr e; hand[i] = std::move(e); } else hand[i] = nullptr; }, "release"));
        th.push_back(mc::spawn([&] { for (int i = 0; i < sends; ++i) MC_CHECK(sk->ev.Send(300 + i).has_value(), "the provider finds no slot although the consumer may hold " << max << " of " << max + 1); }, "provider"));
        for (int t : th) mc::join(t);
        mc::NoPreempt np;
        int n = int(got.size()); for (auto& h : hand) n += static_cast<bool>(h);
        int refs = 0; for (auto& x : st) { lola::EventSlotStatus e{x.load()}; if (!e.IsInvalid() && !e.IsInWriting()) refs += e.GetReferenceCount(); }
        MC_CHECK(n <= max && refs == n, "the consumer holds " << n << " of " << max << " samples and " << refs << " references");
        MC_CHECK(int(px->ev.GetFreeSampleCount()) == max - n, "free sample count");
        mc::outcome(std::to_string(got.size()));
        got.clear(); hand.clear();
        MC_CHECK(int(px->ev.GetFreeSampleCount()) == max, "not every sample was given back");
        px->ev.Unsubscribe(); px.reset(); sk.reset();
    });
}
// The provider reuses the slot of a sample given back on another thread at once, and the consumer fetches that newest sample.
void reused_at_once(const char* name, int sends, int fetches, int preempt)
{
    mc::explore(name, mc::Config{preempt}, [=] {
        Plan pl; pl.slots = 3;
        Stack s(pl);
        std::optional<Skel> sk; std::optional<Prox> px;
        Ptr old; std::vector<Ptr> got; got.reserve(8);
        {
            mc::NoPreempt np;
            sk.emplace(std::move(Skel::Create(s.provided()).value())); MC_CHECK(sk->OfferService().has_value(), "offer");
            px.emplace(std::move(Prox::Create(s.handle(false)).value())); MC_CHECK(px->ev.Subscribe(2).has_value(), "subscribe");
            MC_CHECK(sk->ev.Send(100).has_value(), "send");
            auto r = px->ev.GetNewSamples([&](Ptr p) noexcept { old = std::move(p); }, 1); MC_CHECK(r.has_value() && *r == 1, "fetch");
            MC_CHECK(sk->ev.Send(200).has_value() && sk->ev.Send(201).has_value(), "send");
        }
        auto& ctl = s.event(QualityType::kASIL_QM);
        auto& st = ctl.data_control.state_slots_;
        mc::focus(&st[0], st.size() * sizeof(st[0]));
        auto& log = ctl.transaction_log_set_.GetTransactionLog(lola::TransactionLogIndex{0}).reference_count_slots_;
        mc::track_plain(&log[0], log.size() * sizeof(log[0]));
        int th[3];
        th[0] = mc::spawn([&] { old = nullptr; }, "release");
        th[1] = mc::spawn([&] { for (int i = 0; i < sends; ++i) MC_CHECK(sk->ev.Send(300 + i).has_value(), "the provider finds no slot"); }, "provider");
        th[2] = mc::spawn([&] {
            for (int i = 0; i < fetches; ++i)
            {
                auto r = px->ev.GetNewSamples([&](Ptr p) noexcept { mc::NoPreempt np; got.push_back(std::move(p)); }, 1);
                if (!r.has_value()) MC_CHECK(r.error() == impl::ComErrc::kMaxSamplesReached, "fetching fails");
            }
        }, "fetch");
        for (int t : th) mc::join(t);
        mc::NoPreempt np;
        int n = int(got.size());
        int refs = 0; for (auto& x : st) { lola::EventSlotStatus e{x.load()}; if (!e.IsInvalid() && !e.IsInWriting()) refs += e.GetReferenceCount(); }
        MC_CHECK(refs == n, "the consumer holds " << n << " samples and " << refs << " references");
        MC_CHECK(int(px->ev.GetFreeSampleCount()) == 2 - n, "free sample count");
        std::string o; for (auto& g : got) o += std::to_string(*g) + ","; mc::outcome(o);
        got.clear();
        MC_CHECK(int(px->ev.GetFreeSampleCount()) == 2, "not every sample was given back");
        px->ev.Unsubscribe(); px.reset(); sk.reset();
    });
}
MC_CASE(E07, reused_at_once)
{
    reused_at_once("slot reused before its release is complete", 1, 1, mc::tier(3, 5));
    reused_at_once("slot reused before its release is complete, two fetches", 2, 2, mc::tier(2, 4));
}
MC_CASE(E07, threads)
{
    release_elsewhere("samples given back by another thread", 1, 1, 1, 1, false, mc::tier(3, 5));
    release_elsewhere("samples given back by another thread, two fetches", 1, 2, 1, 2, false, mc::tier(3, 4));
    release_elsewhere("samples given back by two threads", 2, 1, 2, 1, false, mc::tier(3, 4));
    release_elsewhere("samples overwritten by another thread", 2, 1, 1, 1, true, mc::tier(3, 4));
}
}  // namespace
