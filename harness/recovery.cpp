// R01 crash recovery of consumers, R03 ownership and recovery of transaction logs.
#include "event_world.h"
#include "fake_runtime.h"
#include "score/mw/com/impl/bindings/lola/service_data_control.h"
#include "score/mw/com/impl/bindings/lola/subscription_state_machine.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.h"

namespace
{
namespace impl = score::mw::com::impl;
const lola::ElementFqId kEv[2] = {{7, 1, 3, impl::ServiceElementType::EVENT}, {7, 2, 3, impl::ServiceElementType::EVENT}};

// One service with one or two events in shared memory, a provider and any number of consumer processes.
struct Svc
{
    int slots, subs, events;
    lola::ServiceDataControl* ctl;
    fake::Runtime rt;
    std::vector<std::vector<std::uint32_t>> payload;   // event -> slot -> time stamp written
    std::vector<std::vector<int>> live;                // ghost: event -> slot -> references of living consumers
    std::vector<std::unique_ptr<lola::ProviderEventDataControlLocalView<>>> prov;
    std::vector<std::uint32_t> ts;
    Svc(int sl, int su, int ev, bool enforce = true) : slots(sl), subs(su), events(ev), payload(ev, std::vector<std::uint32_t>(sl)), live(ev, std::vector<int>(sl)), ts(ev)
    {
        arena(0).reset();
        ctl = arena(0).construct<lola::ServiceDataControl>(static_cast<std::size_t>(ev), arena(0));
        for (int e = 0; e < ev; ++e)
            ctl->event_controls_.emplace(std::piecewise_construct, std::forward_as_tuple(kEv[e]),
                std::forward_as_tuple(static_cast<lola::SlotIndexType>(sl), static_cast<lola::EventControl::SubscriberCountType>(su), enforce, std::ref(static_cast<score::memory::shared::ManagedMemoryResource&>(arena(0)))));
        for (int e = 0; e < ev; ++e) prov.push_back(std::make_unique<lola::ProviderEventDataControlLocalView<>>(event(e).data_control));
        rt.add(0, 1000, 0);
    }
    lola::EventControl& event(int e) { return ctl->event_controls_.find(kEv[e])->second; }
    bool send(int e = 0)
    {
        auto s = prov[e]->AllocateNextSlot();
        if (!s.has_value()) return false;
        mc::ghost(&live);
        MC_CHECK(live[e][*s] == 0, "the provider got slot " << *s << " which a living consumer holds");
        payload[e][*s] = ++ts[e];
        prov[e]->EventReady(*s, ts[e]);
        return true;
    }
    int refs(int e, int s) { lola::EventSlotStatus st{event(e).data_control.state_slots_[s].load()}; return st.IsInWriting() || st.IsInvalid() ? 0 : static_cast<int>(st.GetReferenceCount()); }
    // what a recovered world must look like: only living consumers hold anything
    void exact(const char* when, bool at_least_only)
    {
        mc::ghost(&live);
        for (int e = 0; e < events; ++e)
            for (int s = 0; s < slots; ++s)
            {
                const int r = refs(e, s), l = live[e][s];
                MC_CHECK(at_least_only ? r >= l : r == l, when << ": slot " << s << " of event " << e << " is referenced " << r << " times, living consumers hold it " << l << " times");
            }
    }
    // subscribers and slots still accounted for, probed through the public interface (enforced limits)
    std::pair<int, int> accounted(int e)
    {
        auto& c = event(e).subscription_control;
        std::vector<int> got;
        int free_slots = 0;
        bool room = false;
        for (int n = slots; n >= 0; --n)
            if (c.Subscribe(static_cast<std::uint16_t>(n)) == lola::SubscribeResult::kSuccess) { free_slots = n; got.push_back(n); room = true; break; }
        while (c.Subscribe(0) == lola::SubscribeResult::kSuccess) got.push_back(0);
        int n = subs - static_cast<int>(got.size());
        for (int g : got) c.Unsubscribe(static_cast<std::uint16_t>(g));
        return {n, room ? slots - free_slots : -1};
    }
};

// The per-process part of a proxy event of the binding.
struct Proxy
{
    Svc& w; int e; lola::TransactionLogId id;
    lola::ConsumerEventDataControlLocalView<> view;
    std::shared_ptr<lola::SubscriptionStateMachine> sm;
    struct H { std::optional<lola::SlotDecrementer> d; int slot; std::uint32_t ts; };
    std::deque<H> held;
    std::uint32_t last{0};
    std::vector<int> mine;
    Proxy(Svc& s, int ev, std::uint32_t ident) : w(s), e(ev), id(ident), view(s.event(ev).data_control),
        sm(std::make_shared<lola::SubscriptionStateMachine>(impl::QualityType::kASIL_QM, kEv[ev], 1000, view, s.event(ev).subscription_control, s.event(ev).transaction_log_set_, id)), mine(s.slots) {}
    bool subscribe(int n) { last = 0; return sm->SubscribeEvent(static_cast<std::size_t>(n)).has_value(); }
    void get(std::size_t n)
    {
        auto r = sm->GetSlotCollectorLockFree()->GetNewSamplesSlotIndices(n);
        for (auto it = r.begin; it != r.end; ++it)
        {
            mc::ghost(&w.live);
            w.live[e][*it]++; mine[*it]++;
            held.push_back({});
            held.back().d.emplace(view, *it); held.back().slot = *it; held.back().ts = ts_of(w.event(e).data_control, *it);
            MC_CHECK(held.back().ts > last, "sample " << held.back().ts << " delivered after " << last);
            last = held.back().ts;
            MC_CHECK(w.payload[e][*it] == last, "content of sample " << last << " is that of " << w.payload[e][*it]);
        }
    }
    void release()
    {
        if (held.empty()) return;
        mc::ghost(&w.live);
        MC_CHECK(w.payload[e][held.front().slot] == held.front().ts, "held sample " << held.front().ts << " was overwritten");
        w.live[e][held.front().slot]--; mine[held.front().slot]--;
        held.pop_front();
    }
    void forget() { mc::ghost(&w.live); for (int i = 0; i < w.slots; ++i) w.live[e][i] -= mine[i]; }   // the process is dead
    void unsubscribe() { while (!held.empty()) release(); sm->UnsubscribeEvent(); }
};
bool recover(Svc& w, std::uint32_t id)
{
    lola::TransactionLogRollbackExecutor ex{*w.ctl, lola::SkeletonInstanceIdentifier{7, 3}, impl::QualityType::kASIL_QM, 1000, lola::TransactionLogId{id}};
    return ex.RollbackTransactionLogs().has_value();
}
constexpr std::uint32_t kA = 500, kB = 600;

// script letters: s subscribe(2), S subscribe(1), g fetch 1, G fetch 2, r release oldest, u unsubscribe, t second event subscribe(1), h fetch 1 there, R recover
struct Params { const char* script; int preempt; int crashes; bool other; bool provider; int slots{3}; int events{1}; };
void run(const char* name, Params p)
{
    mc::Config cfg{p.preempt}; cfg.crashes = p.crashes;
    mc::explore(name, cfg, [p] {
        auto w = std::make_unique<Svc>(p.slots, 2, p.events);
        for (int e = 0; e < p.events; ++e) { w->send(e); w->send(e); }
        mc::focus(arena(0).buf, arena(0).used);
        mc::crash_region(arena(0).buf, arena(0).used);
        const int A = mc::new_proc(), B = mc::new_proc();
        w->rt.add(A, 2001, kA); w->rt.add(B, 3001, kB);
        mc::expect_death_ok(A, false);
        std::unique_ptr<Proxy> b;
        int B_slots = 0;
        if (p.other)
        {
            mc::join(mc::spawn([&] { mc::NoPreempt np; MC_CHECK(recover(*w, kB), "nothing to recover, but refused"); b = std::make_unique<Proxy>(*w, 0, kB); MC_CHECK(b->subscribe(1), "subscription refused"); b->get(1); }, "other", B));
            B_slots = 1;
        }
        std::unique_ptr<Proxy> a, a2; bool inside = false; bool started = false; std::string done;
        mc::crashable(A);
        int ta = mc::spawn([&] {
            inside = true; started = true;
            MC_CHECK(recover(*w, kA), "nothing to recover, but refused");
            a = std::make_unique<Proxy>(*w, 0, kA);
            if (p.events > 1) { MC_CHECK(recover(*w, kA), "nothing to recover, but refused"); a2 = std::make_unique<Proxy>(*w, 1, kA); }
            inside = false;
            for (const char* c = p.script; *c; ++c)
            {
                mc::point("between operations");
                inside = true;
                switch (*c)
                {
                    case 's': MC_CHECK(a->subscribe(2), "subscription refused although there is room"); break;
                    case 'S': MC_CHECK(a->subscribe(1), "subscription refused although there is room"); break;
                    case 'g': a->get(1); break;
                    case 'G': a->get(2); break;
                    case 'r': a->release(); break;
                    case 'u': a->unsubscribe(); break;
                    case 't': MC_CHECK(a2->subscribe(1), "subscription refused although there is room"); break;
                    case 'h': a2->get(1); break;
                    case 'q': a2->release(); break;
                    case 'v': a2->unsubscribe(); break;
                }
                inside = false;
                done += *c;
            }
        }, "A", A);
        int tp = -1;
        if (p.provider) tp = mc::spawn([&] { for (int i = 0; i < 2; ++i) w->send(0); }, "provider", 0);
        mc::join(ta);
        if (tp >= 0) mc::join(tp);
        mc::crashable(A, false);
        if (mc::failed()) return;
        if (!mc::proc_crashed(A))
        {
            mc::outcome("finished");
            mc::NoPreempt np;
            mc::join(mc::spawn([&] { a->unsubscribe(); if (a2) a2->unsubscribe(); }, "A", A));
            if (b) mc::join(mc::spawn([&] { b->unsubscribe(); }, "other", B));
            w->exact("after everybody unsubscribed", false);
            return;
        }
        // nothing of the dead process runs any more, its objects included
        if (a) { a->forget(); (void)a.release(); }
        if (a2) { a2->forget(); (void)a2.release(); }
        // other consumers are undisturbed while the dead one's references are still there
        {
            mc::NoPreempt np;
            w->exact("before recovery", true);
        }
        bool interrupted = inside;
        bool ok = false; int gen = 0;
        for (int attempt = 0; attempt < 2; ++attempt)
        {
            const int A2 = mc::new_proc();
            w->rt.add(A2, 2002 + gen, kA); ++gen;
            mc::crashable(A2);
            bool in_recovery = true;
            std::unique_ptr<Proxy> n;
            mc::join(mc::spawn([&] {
                ok = recover(*w, kA);
                if (ok && p.events > 1) ok = recover(*w, kA);
                in_recovery = false;
            }, "A restarted", A2));
            mc::crashable(A2, false);
            if (mc::failed()) return;
            if (mc::proc_crashed(A2)) { interrupted |= in_recovery; continue; }
            MC_CHECK(!mc::proc_dead(A2), "recovery terminated the process: " << mc::proc_death(A2));
            const auto& out = w->rt.rt[A2]->msg().outdated;
            MC_CHECK(out.size() <= 1, out.size() << " notifications of an outdated node");
            if (!out.empty()) MC_CHECK(out[0].node >= 2001 && out[0].node < 2002 + gen - 1 && out[0].target == 1000, "node " << out[0].node << " reported outdated to " << out[0].target);
            if (!interrupted || done.size() > 0) MC_CHECK(out.size() == 1, "the provider was not told that the previous process is gone");
            break;
        }
        mc::NoPreempt np;
        mc::outcome(std::string(ok ? "recovered" : "refused") + (interrupted ? " in operation " : " idle ") + done);
        MC_CHECK(ok || interrupted, "recovery refused although the process died between two operations (after " << done << ")");
        w->exact(ok ? "after recovery" : "after refused recovery", !ok);
        for (int e = 0; e < p.events; ++e)
        {
            auto acc = w->accounted(e);
            const int b_subs = e == 0 && p.other ? 1 : 0, b_slots = e == 0 ? B_slots : 0;
            if (ok) MC_CHECK(acc.first == b_subs && (acc.second == -1 || acc.second == b_slots), "after recovery " << acc.first << " subscribers with " << acc.second << " slots are accounted, living ones are " << b_subs << " with " << b_slots);
            else MC_CHECK(acc.first >= b_subs, "the refused recovery released a foreign subscription");
        }
        if (mc::failed()) return;
        // the restarted process works normally, as do the others
        const int A3 = mc::new_proc();
        w->rt.add(A3, 2050, kA);
        if (ok)
            mc::join(mc::spawn([&] {
                MC_CHECK(recover(*w, kA), "second recovery refused");
                Proxy n{*w, 0, kA};
                MC_CHECK(n.subscribe(2), "re-subscription refused");
                if (mc::failed()) return;
                n.get(2);
                w->send(0);
                n.release();
                n.get(1);
                n.unsubscribe();
                w->exact("after the restarted consumer finished", false);
            }, "A again", A3));
        if (mc::failed()) return;
        if (b)
            mc::join(mc::spawn([&] {
                b->release();
                w->send(0);
                b->get(1);
                MC_CHECK(b->last == w->ts[0] || !ok, "the other consumer does not get the newest sample");
                b->unsubscribe();
            }, "other", B));
        if (mc::failed()) return;
        if (ok)
            for (int e = 0; e < p.events; ++e)
            {
                int n = 0; std::vector<int> got;
                for (int i = 0; i < p.slots; ++i) if (w->prov[e]->AllocateNextSlot().has_value()) ++n;
                MC_CHECK(n == p.slots, "only " << n << " of " << p.slots << " slots are usable after recovery");
            }
    });
}

// ---- R03: concurrent registration
void reg(const char* name, mc::Config cfg, int logs, std::vector<int> rounds, bool same_id)
{
    mc::explore(name, cfg, [=] {
        arena(0).reset();
        auto* c = arena(0).construct<lola::EventControl>(static_cast<lola::SlotIndexType>(2), static_cast<lola::EventControl::SubscriberCountType>(logs), true, arena(0));
        mc::focus(arena(0).buf, arena(0).used);
        std::map<int, int> owner;
        int maybe = 0;     // registrations that may hold a log right now
        std::vector<int> floor_seen;   // per running registration: largest possible occupation by the others
        std::map<int, int> peak;
        for (std::size_t i = 0; i < rounds.size(); ++i)
            mc::spawn([&, i] {
                lola::ConsumerEventDataControlLocalView<> view{c->data_control};
                const auto id = static_cast<lola::TransactionLogId>(same_id ? 70 : 70 + i);
                for (int k = 0; k < rounds[i]; ++k)
                {
                    mc::ghost(&owner);
                    ++maybe; peak[static_cast<int>(i)] = maybe;
                    for (auto& p : peak) p.second = std::max(p.second, maybe);
                    auto g = c->transaction_log_set_.RegisterProxyElement(id, view);
                    mc::ghost(&owner);
                    const int most = peak[static_cast<int>(i)]; peak.erase(static_cast<int>(i));
                    if (!g.has_value()) { --maybe; MC_CHECK(most > logs, "registration refused although at most " << most - 1 << " of " << logs << " logs were in use"); continue; }
                    const int ix = static_cast<int>(g.value().GetTransactionLogIndex());
                    MC_CHECK(ix >= 0 && ix < logs, "log index " << ix);
                    MC_CHECK(owner.count(ix) == 0, "log " << ix << " handed out twice");
                    owner[ix] = static_cast<int>(i);
                    // use it
                    lola::TransactionLogLocalView l{c->transaction_log_set_.GetTransactionLog(g.value().GetTransactionLogIndex())};
                    MC_CHECK(!l.ContainsTransactions(), "a fresh log contains transactions");
                    l.SubscribeTransactionBegin(1); l.SubscribeTransactionCommit(); l.UnsubscribeTransactionBegin(); l.UnsubscribeTransactionCommit();
                    mc::ghost(&owner);
                    owner.erase(ix);
                    { auto gone = std::move(g).value(); }
                    mc::ghost(&owner);
                    --maybe;
                }
            }, "registrar", mc::new_proc());
        mc::join_all();
        mc::NoPreempt np;
        // all logs are free again
        std::deque<lola::ConsumerEventDataControlLocalView<>> v;
        std::vector<lola::TransactionLogRegistrationGuard> gs;
        for (int i = 0; i < logs; ++i)
        {
            v.emplace_back(c->data_control);
            auto g = c->transaction_log_set_.RegisterProxyElement(static_cast<lola::TransactionLogId>(90 + i), v.back());
            MC_CHECK(g.has_value(), "only " << i << " of " << logs << " logs are free after everybody left");
            if (!g.has_value()) return;
            gs.push_back(std::move(g).value());
        }
        v.emplace_back(c->data_control);
        MC_CHECK(!c->transaction_log_set_.RegisterProxyElement(static_cast<lola::TransactionLogId>(99), v.back()).has_value(), "more registrations than logs");
    });
}

// Crash of a registrar at any write, then recovery by its next life; other identities keep theirs.
void reg_crash(const char* name, mc::Config cfg)
{
    mc::explore(name, cfg, [=] {
        auto w = std::make_unique<Svc>(2, 2, 1);
        w->send(0);
        mc::focus(arena(0).buf, arena(0).used);
        mc::crash_region(arena(0).buf, arena(0).used);
        const int A = mc::new_proc(), B = mc::new_proc();
        w->rt.add(A, 2001, kA); w->rt.add(B, 3001, kB);
        mc::crashable(A);
        auto& set = w->event(0).transaction_log_set_;
        int ta = mc::spawn([&] {
            lola::ConsumerEventDataControlLocalView<> view{w->event(0).data_control};
            for (int k = 0; k < 2; ++k) { auto g = set.RegisterProxyElement(lola::TransactionLogId{kA}, view); MC_CHECK(g.has_value(), "registration refused"); }
        }, "A", A);
        std::unique_ptr<Proxy> b;
        int tb = mc::spawn([&] { MC_CHECK(recover(*w, kB), "nothing to recover"); b = std::make_unique<Proxy>(*w, 0, kB); MC_CHECK(b->subscribe(1), "registration refused because of a foreign crash"); if (!mc::failed()) b->get(1); }, "B", B);
        mc::join(ta); mc::join(tb);
        mc::crashable(A, false);
        if (mc::failed()) return;
        const int A2 = mc::new_proc(); w->rt.add(A2, 2002, kA);
        mc::join(mc::spawn([&] {
            MC_CHECK(recover(*w, kA), "recovery of a dead registration refused");
            Proxy n{*w, 0, kA};
            MC_CHECK(n.subscribe(1), "the log of the dead registration is not free again");
            if (!mc::failed()) { n.get(1); n.unsubscribe(); }
        }, "A restarted", A2));
        if (mc::failed()) return;
        mc::outcome(mc::proc_crashed(A) ? "crashed" : "finished");
        mc::NoPreempt np;
        w->exact("after recovery", false);
        mc::join(mc::spawn([&] { b->unsubscribe(); }, "B", B));
    });
}

// Two logs of one identity left by a crash, two concurrent recoveries in the restarted process, one foreign log.
void concurrent_recovery(const char* name, mc::Config cfg, int logs_left, int threads)
{
    mc::explore(name, cfg, [=] {
        auto w = std::make_unique<Svc>(4, 5, 1, false);
        for (int i = 0; i < 3; ++i) w->send(0);
        const int A = mc::new_proc(), B = mc::new_proc();
        w->rt.add(A, 2001, kA); w->rt.add(B, 3001, kB);
        std::vector<std::unique_ptr<Proxy>> old;
        std::unique_ptr<Proxy> b;
        {
            mc::NoPreempt np;
            mc::join(mc::spawn([&] {
                for (int i = 0; i < logs_left; ++i) { MC_CHECK(recover(*w, kA), "nothing to recover"); old.push_back(std::make_unique<Proxy>(*w, 0, kA)); MC_CHECK(old.back()->subscribe(2), "refused"); if (mc::failed()) return; old.back()->get(static_cast<std::size_t>(1 + i)); }
            }, "A", A));
            mc::join(mc::spawn([&] { recover(*w, kB); b = std::make_unique<Proxy>(*w, 0, kB); MC_CHECK(b->subscribe(2), "refused"); if (!mc::failed()) b->get(2); }, "B", B));
            if (mc::failed()) return;
            for (auto& o : old) { o->forget(); (void)o.release(); }
        }
        mc::focus(arena(0).buf, arena(0).used);
        const int A2 = mc::new_proc(); w->rt.add(A2, 2002, kA);
        std::deque<Proxy> fresh;
        int ok = 0;
        for (int t = 0; t < threads; ++t)
            mc::spawn([&] {
                const bool r = recover(*w, kA);
                mc::ghost(&fresh);
                MC_CHECK(r, "recovery refused");
                if (!r) return;
                ++ok;
                Proxy* n;
                { mc::NoPreempt np; fresh.emplace_back(*w, 0, kA); n = &fresh.back(); }
                MC_CHECK(n->subscribe(1), "subscription refused after recovery");
                if (mc::failed()) return;
                n->get(1);
            }, "recovering", A2);
        mc::join_all();
        if (mc::failed()) return;
        mc::NoPreempt np;
        MC_CHECK(w->rt.rt[A2]->msg().outdated.size() == 1, w->rt.rt[A2]->msg().outdated.size() << " outdated-node notifications");
        // every old log is rolled back exactly once if enough recoveries ran
        w->exact("after concurrent recovery", threads < logs_left);
        const int left = std::max(0, logs_left - threads);
        int subs_free = 0;
        auto& c = w->event(0).subscription_control;
        while (c.Subscribe(0) == lola::SubscribeResult::kSuccess) ++subs_free;
        for (int i = 0; i < subs_free; ++i) c.Unsubscribe(0);
        MC_CHECK(5 - subs_free == 1 + ok + left, 5 - subs_free << " subscriptions accounted, " << 1 + ok + left << " exist");
        mc::join(mc::spawn([&] { mc::NoPreempt n2; b->unsubscribe(); }, "B", B));
        for (auto& f : fresh) { mc::join(mc::spawn([&f] { mc::NoPreempt n2; f.unsubscribe(); }, "end", A2)); }
        w->exact("at the end", threads < logs_left);
        mc::outcome(std::to_string(ok));
    });
}
// ---- R03: whole histories of two applications that open, use and close proxies, die and start again
struct Lives final : mc::System
{
    static constexpr int kSubs = 4, kSlots = 5, kPer = 2;
    struct Pending { std::vector<int> refs; int log; };
    bool used[kSubs]{};   // which log is taken, as far as the search order matters (only tells states apart)
    struct App { std::uint32_t id; int proc; pid_t pid; std::unique_ptr<Proxy> px[kPer]; int log[kPer]{}; std::vector<Pending> dead; bool fresh{true}; };
    std::unique_ptr<Svc> w{new Svc(kSlots, kSubs, 1)};
    App a[2];
    Lives() { w->send(); w->send(); for (int i = 0; i < 2; ++i) { a[i].id = i ? kB : kA; a[i].pid = 2001 + 1000 * i; a[i].proc = 1 + i; w->rt.add(a[i].proc, a[i].pid, a[i].id); } }
    ~Lives() override { if (mc::failed()) { for (auto& x : a) for (auto& p : x.px) (void)p.release(); } else finish(); }
    static constexpr int kOps = 1 + 2 * (1 + 3 * kPer + 1);
    static std::string name(int o)
    {
        if (o == 0) return "send";
        --o; const std::string who = o / (2 + 3 * kPer) ? "B" : "A"; o %= 2 + 3 * kPer;
        if (o == 0) return who + " opens a proxy";
        if (o == 1) return who + " dies and starts again";
        o -= 2; const char* n[] = {" fetches", " gives one back", " closes"};
        return who + n[o % 3] + (o / 3 ? " (second proxy)" : " (first proxy)");
    }
    int living(const App& x) { int n = 0; for (auto& p : x.px) n += p != nullptr; return n; }
    std::vector<int> now() { std::vector<int> r; for (int s = 0; s < kSlots; ++s) r.push_back(w->refs(0, s)); return r; }
    bool apply(int o) override
    {
        w->rt.domain = 0;
        if (o == 0)
        {
            int left = 0; auto r = now(); for (int x : r) left += x == 0;
            const bool ok = w->send(); MC_CHECK(ok == (left > 0), "sending with " << left << " unused slots " << (ok ? "succeeds" : "fails"));
            return ok;
        }
        --o; App& me = a[o / (2 + 3 * kPer)]; o %= 2 + 3 * kPer;
        w->rt.domain = me.proc;
        if (o == 0)
        {
            int i = 0; while (i < kPer && me.px[i]) ++i;
            if (i == kPer) return false;
            int all = 1; for (auto& x : a) all += living(x) + static_cast<int>(x.dead.size());
            if (all - (me.dead.empty() ? 0 : 1) > kSubs) return false;
            auto before = now();
            const auto told = w->rt.rt[me.proc]->msg().outdated.size();
            MC_CHECK(recover(*w, me.id), "recovery refused although nobody died within an operation");
            auto after = now();
            if (me.dead.empty()) MC_CHECK(before == after, "opening a proxy released references of living consumers");
            else
            {
                auto it = me.dead.begin();
                for (; it != me.dead.end(); ++it) { bool same = true; for (int s = 0; s < kSlots; ++s) same &= before[s] - after[s] == it->refs[s]; if (same) break; }
                MC_CHECK(it != me.dead.end(), "opening a proxy after a crash does not give back exactly the references of one dead proxy");
                if (it == me.dead.end()) return true;
                used[it->log] = false; me.dead.erase(it);
            }
            MC_CHECK(w->rt.rt[me.proc]->msg().outdated.size() == told + (me.fresh && me.pid % 1000 > 1 && ever[&me - a] ? 1u : 0u), "the provider is told of an outdated process " << w->rt.rt[me.proc]->msg().outdated.size() - told << " times");
            me.fresh = false; ever[&me - a] = true;
            me.px[i] = std::make_unique<Proxy>(*w, 0, me.id);
            for (int k = 0; k < kSubs; ++k) if (!used[k]) { used[k] = true; me.log[i] = k; break; }
            MC_CHECK(me.px[i]->subscribe(1), "subscription refused although there is room");
            return true;
        }
        if (o == 1)
        {
            for (int i = 0; i < kPer; ++i) if (auto& p = me.px[i]) { me.dead.push_back({p->mine, me.log[i]}); p->forget(); (void)p.release(); }
            if (me.fresh) return false;
            ++me.pid; me.fresh = true; w->rt.add(me.proc, me.pid, me.id);
            return true;
        }
        o -= 2; auto& p = me.px[o / 3]; o %= 3;
        if (!p) return false;
        if (o == 0) { if (!p->held.empty()) return false; p->get(1); return !p->held.empty(); }
        if (o == 1) { if (p->held.empty()) return false; p->release(); return true; }
        used[me.log[&p - me.px]] = false; p->unsubscribe(); p.reset();
        return true;
    }
    bool ever[2]{};
    std::string canon() override
    {
        w->rt.domain = 0;
        int subs = 0; std::vector<int> want(kSlots);
        for (auto& x : a) { subs += living(x) + static_cast<int>(x.dead.size()); for (auto& d : x.dead) for (int s = 0; s < kSlots; ++s) want[s] += d.refs[s]; }
        for (int s = 0; s < kSlots; ++s) { const int r = w->refs(0, s), l = want[s] + w->live[0][s]; MC_CHECK(r == l, "slot " << s << " is referenced " << r << " times; " << w->live[0][s] << " times by living consumers and " << want[s] << " times by dead ones not yet recovered"); }
        const auto acc = w->accounted(0);
        MC_CHECK(acc.first == subs, acc.first << " subscriptions are accounted, there are " << subs << " living or unrecovered ones");
        std::vector<std::uint32_t> t{0}; auto& c = w->event(0).data_control;
        for (int s = 0; s < kSlots; ++s) t.push_back(ts_of(c, s));
        std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end());
        auto rk = [&](std::uint32_t x) { return std::upper_bound(t.begin(), t.end(), x) - t.begin(); };
        std::ostringstream s;
        for (int i = 0; i < kSlots; ++i) s << rk(ts_of(c, i));
        for (auto& x : a) { s << "|" << x.fresh << ever[&x - a] << (x.pid % 1000 > 1); for (auto& p : x.px) { s << (p ? "p" : "-"); if (p) { s << rk(p->last); for (auto& h : p->held) s << "h" << h.slot; } } for (auto& d : x.dead) { s << "d"; for (int r : d.refs) s << r; } }
        for (auto& x : a) { for (int i = 0; i < kPer; ++i) if (x.px[i]) s << "L" << x.log[i]; for (auto& d : x.dead) s << "D" << d.log; }
        return s.str();
    }
    void finish() override
    {
        for (auto& x : a) { w->rt.domain = x.proc; for (auto& p : x.px) if (p) { p->unsubscribe(); p.reset(); } }
        w->rt.domain = 0;
    }
};
}  // namespace

MC_CASE(R03, lives) { mc::BfsConfig b; b.max_depth = mc::tier(8, 12); mc::bfs("two applications living, dying and starting again", b, Lives::kOps, Lives::name, [] { return std::make_unique<Lives>(); }); }
MC_CASE(R01, subscribe_fetch) { run("subscribe_fetch", {"sGru", 0, 1, true, false}); }
MC_CASE(R01, history) { run("history", {"sgrGrrsuSgru", 0, 1, true, false}); }
MC_CASE(R01, with_provider) { run("with_provider", {"sgGrr", mc::tier(1, 3), 1, false, true}); }
MC_CASE(R01, with_provider_other) { run("with_provider_other", {"sgrgu", mc::tier(1, 2), 1, true, true, 4}); }
MC_CASE(R01, two_events) { run("two_events", {"sthgqhru", 0, 1, true, false, 3, 2}); }
MC_CASE(R01, crash_in_recovery) { run("crash_in_recovery", {"sGr", 0, 2, true, false}); }
MC_CASE(R03, register_2) { reg("register_2", {mc::tier(4, 8)}, 1, {2, 2}, false); }
MC_CASE(R03, register_3) { reg("register_3", {mc::tier(3, 5)}, 2, {1, 2, 1}, false); }
MC_CASE(R03, register_same_id) { reg("register_same_id", {mc::tier(3, 5)}, 2, {2, 1, 1}, true); }
MC_CASE(R03, crash) { mc::Config c{mc::tier(2, 4)}; c.crashes = 1; reg_crash("crash", c); }
MC_CASE(R03, recover_2_of_2) { concurrent_recovery("recover_2_of_2", {mc::tier(2, 4)}, 2, 2); }
MC_CASE(R03, recover_2_of_1) { concurrent_recovery("recover_2_of_1", {mc::tier(2, 4)}, 1, 2); }
MC_CASE(R03, recover_1_of_2) { concurrent_recovery("recover_1_of_2", {mc::tier(2, 4)}, 2, 1); }
MC_CASE(R03, recover_3_of_2) { concurrent_recovery("recover_3_of_2", {mc::tier(1, 2)}, 2, 3); }
