// E06: the life cycle of a subscription, over the whole stack (real proxies and skeletons above in-memory services).
#include "mc.h"
#include "stack.h"
namespace
{
using namespace stack;
using impl::SubscriptionState;
template <class T> struct Svc : T::Base
{
    using T::Base::Base;
    typename T::template Event<std::uint32_t> ev{*this, "ev"};
};
using Skel = impl::SkeletonWrapperClass<Svc>;
using Prox = impl::ProxyWrapperClass<Svc>;
using Ptr = impl::SamplePtr<std::uint32_t>;

// One provider process that offers, stops, and is replaced by a new provider object; N consumers.
template <int N> struct SubSys final : mc::System
{
    static constexpr int kSlots = 3;                               // also what all subscriptions together may ask for
    static constexpr int kAsk[2] = {N == 1 ? 2 : 1, N == 1 ? 4 : 2};
    struct Con
    {
        std::unique_ptr<Prox> px; std::vector<std::pair<Ptr, std::uint32_t>> held;
        int sub{0};                     // 0: not subscribed
        bool pending{false};
        // handler: 0 none, 1 set before the subscription took effect or active
        bool handler{false}; int calls{0};
        int sc{0};                      // state change handler: 0 none, 1 keeps itself, 2 removes itself
        std::vector<SubscriptionState> seen;
        std::uint32_t last{0}; bool fresh{false};   // newest delivered in this subscription
    };
    Stack s; std::unique_ptr<Skel> sk; bool offered{false}; std::array<Con, N> c; std::uint32_t sent{0}; pid_t pid{1000}; bool two;
    static Plan plan() { Plan p; p.slots = kSlots; p.subs = N; p.enforce = true; return p; }
    explicit SubSys(bool) : s(plan()), two(false)
    {
        sk = std::make_unique<Skel>(std::move(Skel::Create(s.provided()).value()));
        if (!sk->OfferService().has_value()) mc::violation("offer failed");
        offered = true;
        for (auto& x : c) make(x);
    }
    ~SubSys() override { for (auto& x : c) { x.held.clear(); x.px.reset(); } }
    void make(Con& x)
    {
        x = Con{}; auto r = Prox::Create(s.handle(false));
        MC_CHECK(r.has_value(), "a proxy cannot be created while the service is offered");
        if (r.has_value()) x.px = std::make_unique<Prox>(std::move(r).value());
    }
    enum Op { Offer, Stop, Renew, Send, kGlobal };
    enum POp { Sub1, Sub2, Unsub, SetH, UnsetH, SetSKeep, SetSOnce, UnsetS, Fetch, Release, Destroy, Move, kPer };
    static constexpr int kOps = kGlobal + N * kPer;
    static std::string name(int o)
    {
        static const char* g[] = {"offer", "stop offer", "new provider object", "send"};
        static const char* p[] = {"subscribe few", "subscribe many", "unsubscribe", "set receive handler", "unset receive handler", "set state handler", "set one-time state handler", "unset state handler", "fetch", "release", "destroy proxy", "move proxy"};
        if (o < kGlobal) return g[o];
        return (N > 1 ? "consumer " + std::to_string((o - kGlobal) / kPer) + ": " : std::string{}) + p[(o - kGlobal) % kPer];
    }
    int held() { int n = 0; for (auto& x : c) n += int(x.held.size()); return n; }
    int subscribed() { int n = 0; for (auto& x : c) n += x.sub; return n; }
    // the state of a subscription changes: what the state change handler has to be told
    struct Expect { std::size_t before; };
    void changed(Con& x, SubscriptionState st, std::size_t before, const char* what)
    {
        const bool told = x.seen.size() == before + 1 && x.seen.back() == st;
        MC_CHECK(x.seen.size() == before + (x.sc ? 1 : 0), what << ": the state change handler is called " << x.seen.size() - before << " times");
        if (x.sc) MC_CHECK(told, what << ": the state change handler is told " << int(x.seen.back()));
        if (x.sc == 2) x.sc = 0;
    }
    void unchanged(Con& x, std::size_t before, const char* what) { MC_CHECK(x.seen.size() == before, what << ": the state change handler is called without a change"); }
    bool apply(int o) override
    {
        std::array<std::size_t, N> before; for (int i = 0; i < N; ++i) before[i] = c[i].seen.size();
        if (o == Offer)
        {
            if (offered || !sk) return false;
            auto r = sk->OfferService(); MC_CHECK(r.has_value(), "the service cannot be offered again"); offered = true;
            for (int i = 0; i < N; ++i) if (c[i].px) { if (c[i].sub) { c[i].pending = false; changed(c[i], SubscriptionState::kSubscribed, before[i], "offer"); } else unchanged(c[i], before[i], "offer"); }
            return check();
        }
        if (o == Stop)
        {
            if (!offered) return false;
            sk->StopOfferService(); offered = false;
            for (int i = 0; i < N; ++i) if (c[i].px) { if (c[i].sub) { c[i].pending = true; changed(c[i], SubscriptionState::kSubscriptionPending, before[i], "stop offer"); } else unchanged(c[i], before[i], "stop offer"); }
            return check();
        }
        if (o == Renew)
        {
            if (offered) return false;
            sk.reset(); pid ^= 1; s.rt.rt[0]->pid = pid;   // a new process
            auto r = Skel::Create(s.provided()); MC_CHECK(r.has_value(), "a new provider object cannot be created"); if (r.has_value()) sk = std::make_unique<Skel>(std::move(r).value());
            for (int i = 0; i < N; ++i) if (c[i].px) unchanged(c[i], before[i], "new provider");
            return check();
        }
        if (o == Send)
        {
            if (held() >= kSlots) return false;
            std::array<int, N> calls; for (int i = 0; i < N; ++i) calls[i] = c[i].calls;
            auto r = sk->ev.Send(sent + 1);
            MC_CHECK(r.has_value() == offered, "sending " << (offered ? "fails" : "succeeds without offer"));
            if (offered) ++sent;
            for (int i = 0; i < N; ++i) if (c[i].px)
            {
                const int want = offered && c[i].sub && c[i].handler ? 1 : 0;
                MC_CHECK(c[i].calls - calls[i] == want, "sending calls the receive handler " << c[i].calls - calls[i] << " times instead of " << want << " times");
                if (offered && c[i].sub) c[i].fresh = true;
            }
            return check();
        }
        const int p = (o - kGlobal) % kPer; const int me = (o - kGlobal) / kPer; Con& x = c[me];
        if (p == Destroy)
        {
            if (!x.px) { if (!offered) return false; make(x); return check(); }
            if (!x.held.empty()) return false;
            const std::size_t b = x.seen.size(); const bool had = x.sub; auto sc = x.sc; x.sub = 0; x.pending = false; x.handler = false;
            x.px.reset();
            for (std::size_t i = b; i < x.seen.size(); ++i) MC_CHECK(had && sc && x.seen[i] == SubscriptionState::kNotSubscribed, "destroying a proxy reports a wrong state");
            x = Con{};
            return check();
        }
        if (!x.px) return false;
        auto& ev = x.px->ev;
        switch (p)
        {
            case Sub1: case Sub2:
            {
                const int n = kAsk[p == Sub2];
                const bool fits = subscribed() + n <= kSlots;
                auto r = ev.Subscribe(n);
                if (x.sub) { MC_CHECK(r.has_value() == (x.sub == n), "subscribing again for " << n << " while subscribed for " << x.sub << (r.has_value() ? " succeeds" : " fails")); if (!r.has_value()) MC_CHECK(r.error() == impl::ComErrc::kMaxSampleCountNotRealizable, "wrong error"); unchanged(x, before[me], "subscribing again"); break; }
                MC_CHECK(r.has_value() == fits, "subscribing for " << n << (fits ? " is refused with room" : " is granted without room"));
                if (!r.has_value()) { unchanged(x, before[me], "a refused subscription"); break; }
                x.sub = n; x.pending = !offered; x.last = 0; x.fresh = false;
                changed(x, offered ? SubscriptionState::kSubscribed : SubscriptionState::kSubscriptionPending, before[me], "subscribe");
                break;
            }
            case Unsub:
                if (!x.held.empty()) return false;
                ev.Unsubscribe();
                if (x.sub) { x.sub = 0; x.pending = false; x.handler = false; changed(x, SubscriptionState::kNotSubscribed, before[me], "unsubscribe"); (void)ev.UnsetSubscriptionStateChangeHandler(); x.sc = 0; }
                else unchanged(x, before[me], "unsubscribe");
                break;
            case SetH: { Con* q = &x; auto r = ev.SetReceiveHandler([q] { ++q->calls; }); MC_CHECK(r.has_value(), "setting a receive handler fails"); x.handler = true; unchanged(x, before[me], "setting a handler"); break; }
            case UnsetH: { auto r = ev.UnsetReceiveHandler(); MC_CHECK(r.has_value(), "removing a receive handler fails"); x.handler = false; unchanged(x, before[me], "removing a handler"); break; }
            case SetSKeep: case SetSOnce:
            {
                if (N > 1 && p == SetSOnce) return false;
                Con* q = &x; const bool keep = p == SetSKeep;
                auto r = ev.SetSubscriptionStateChangeHandler([q, keep](SubscriptionState st) { q->seen.push_back(st); return keep; });
                MC_CHECK(r.has_value(), "setting a state change handler fails"); x.sc = keep ? 1 : 2; unchanged(x, before[me], "setting a state change handler"); break;
            }
            case UnsetS: { auto r = ev.UnsetSubscriptionStateChangeHandler(); MC_CHECK(r.has_value(), "removing a state change handler fails"); x.sc = 0; unchanged(x, before[me], "removing a state change handler"); break; }
            case Fetch:
            {
                std::vector<std::pair<Ptr, std::uint32_t>> in;
                auto r = ev.GetNewSamples([&](Ptr q) noexcept { std::uint32_t v = *q; in.emplace_back(std::move(q), v); }, 1);
                if (!x.sub) { MC_CHECK(!r.has_value() && in.empty(), "samples are delivered without subscription"); break; }
                if (int(x.held.size()) == x.sub) { MC_CHECK(!r.has_value() && in.empty(), "more samples than subscribed for"); break; }
                MC_CHECK(r.has_value() && *r == in.size() && in.size() <= 1, "fetch fails");
                if (x.fresh) MC_CHECK(in.size() == 1 && in[0].second == sent, "the sample sent since the subscription is not delivered");
                for (auto& q : in) { MC_CHECK(q.second > x.last, "a sample is delivered twice"); x.last = q.second; x.held.push_back(std::move(q)); }
                x.fresh = false;
                break;
            }
            case Release: if (x.held.empty()) return false; x.held.erase(x.held.begin()); break;
            case Move: { auto n = std::make_unique<Prox>(std::move(*x.px)); x.px = std::move(n); unchanged(x, before[me], "moving a proxy"); break; }
        }
        return check();
    }
    bool check()
    {
        const bool shm = any();
        for (int i = 0; i < N; ++i)
        {
            Con& x = c[i]; if (!x.px) continue;
            const SubscriptionState st = x.px->ev.GetSubscriptionState();
            const SubscriptionState want = !x.sub ? SubscriptionState::kNotSubscribed : x.pending ? SubscriptionState::kSubscriptionPending : SubscriptionState::kSubscribed;
            MC_CHECK(st == want, "the subscription state is " << int(st) << " instead of " << int(want));
            if (x.sub) MC_CHECK(x.px->ev.GetFreeSampleCount() == x.sub - x.held.size(), "free sample count " << x.px->ev.GetFreeSampleCount() << " with " << x.held.size() << " of " << x.sub << " held");
            auto n = x.px->ev.GetNumNewSamplesAvailable();
            MC_CHECK(n.has_value() == (x.sub != 0), "number of new samples " << (x.sub ? "fails" : "is reported without subscription"));
            if (x.sub && n.has_value() && x.fresh) MC_CHECK(*n >= 1, "a new sample is not counted");
            for (auto& h : x.held) MC_CHECK(*h.first == h.second, "a held sample changed");
        }
        int regs_hi = 0, regs_lo = 0;
        for (auto& x : c) if (x.px && x.sub) { ++regs_hi; if (x.handler && !x.pending) ++regs_lo; }
        MC_CHECK(int(s.bus.regs.size()) <= regs_hi, s.bus.regs.size() << " receive handlers are registered for " << regs_hi << " subscriptions");
        MC_CHECK(int(s.bus.regs.size()) >= regs_lo, s.bus.regs.size() << " receive handlers are registered instead of " << regs_lo);
        if (offered) for (auto& r : s.bus.regs) MC_CHECK(r.second.pid == pid, "a receive handler is registered at a process that is not the provider any more");
        int px = 0; for (auto& x : c) px += x.px != nullptr;
        MC_CHECK(int(s.sd.searches.size()) == px, s.sd.searches.size() << " searches for " << px << " proxies");
        if (!shm) return true;
        auto& e = s.event(QualityType::kASIL_QM);
        int refs = 0;
        for (auto& w : e.data_control.state_slots_) { lola::EventSlotStatus v{w.load()}; if (!v.IsInvalid() && !v.IsInWriting()) refs += v.GetReferenceCount(); MC_CHECK(!v.IsInWriting(), "a slot stays in writing"); }
        MC_CHECK(refs == held(), refs << " slots referenced while " << held() << " samples are held");
        // the subscription budget: exactly what is not subscribed can be subscribed for
        const int left = kSlots - subscribed(); int subs = 0; for (auto& x : c) subs += x.sub != 0;
        auto& ctl = e.subscription_control;
        const bool more = ctl.Subscribe(static_cast<std::uint16_t>(left + 1)) == lola::SubscribeResult::kSuccess;
        if (more) ctl.Unsubscribe(static_cast<std::uint16_t>(left + 1));
        MC_CHECK(!more, "the subscriptions occupy fewer sample slots than they asked for");
        if (subs < N && left > 0)
        {
            const bool ok = ctl.Subscribe(static_cast<std::uint16_t>(left)) == lola::SubscribeResult::kSuccess;
            MC_CHECK(ok, "the subscriptions occupy more than " << subs << " subscribers and " << subscribed() << " sample slots");
            if (ok) ctl.Unsubscribe(static_cast<std::uint16_t>(left));
        }
        return true;
    }
    bool any() { if (offered) return true; for (auto& x : c) if (x.px) return true; return false; }
    std::string canon() override
    {
        std::ostringstream o; o << offered << pid << "|";
        for (auto& x : c) { o << (x.px ? 'p' : '-') << x.sub << x.pending << x.handler << x.sc << x.fresh << (x.last ? std::to_string(sent - x.last) : "-") << "h"; for (auto& h : x.held) o << sent - h.second << ","; o << ";"; }
        o << "r" << s.bus.regs.size(); for (auto& r : s.bus.regs) o << r.second.pid;
        if (any()) for (auto& w : s.event(QualityType::kASIL_QM).data_control.state_slots_) { lola::EventSlotStatus v{w.load()}; o << (v.IsInvalid() ? std::string{"i"} : std::to_string(int(sent) - int(v.GetTimeStamp())) + "x" + std::to_string(v.GetReferenceCount())) << ";"; }
        return o.str();
    }
    void finish() override
    {
        for (int i = 0; i < 2; ++i) apply(offered ? Stop : Offer);   // who is still told about changes
        for (auto& x : c) { x.held.clear(); x.px.reset(); x.sub = 0; x.handler = false; }
        MC_CHECK(s.bus.regs.empty(), "a receive handler stays registered after its proxy is gone");
        MC_CHECK(s.sd.searches.empty(), "a search goes on after its proxy is gone");
        check();
        if (offered) sk->StopOfferService();
        sk.reset();
        MC_CHECK(s.bus.existence.empty(), "the provider still listens for receive handlers");
    }
};
MC_CASE(E06, lifecycle)
{
    mc::bfs("one consumer: life cycle sequences", mc::BfsConfig{mc::tier(11, 18)}, SubSys<1>::kOps, SubSys<1>::name, [] { return std::unique_ptr<mc::System>(new SubSys<1>(false)); });
}
MC_CASE(E06, two_consumers)
{
    mc::bfs("two consumers: life cycle sequences", mc::BfsConfig{mc::tier(6, 8)}, SubSys<2>::kOps, SubSys<2>::name, [] { return std::unique_ptr<mc::System>(new SubSys<2>(false)); });
}

// ---- the user's thread against the thread that delivers service availability ------------------------------------
void races(const char* name, int user, int provider, int preempt)
{
    mc::explore(name, mc::Config{preempt}, [=] {
        Plan pl; pl.slots = 3; pl.subs = 1; pl.enforce = true;
        Stack s(pl); std::unique_ptr<Skel> sk; std::unique_ptr<Prox> px; int calls = 0; std::vector<SubscriptionState> seen; seen.reserve(8); bool fetched = false, removed = false;
        {
            mc::NoPreempt np;
            sk = std::make_unique<Skel>(std::move(Skel::Create(s.provided()).value())); MC_CHECK(sk->OfferService().has_value(), "offer");
            px = std::make_unique<Prox>(std::move(Prox::Create(s.handle(false)).value()));
            MC_CHECK(px->ev.SetSubscriptionStateChangeHandler([&](SubscriptionState st) { MC_CHECK(!removed, "a removed state change handler is called"); seen.push_back(st); return true; }).has_value(), "state handler");
            if (user != 0) MC_CHECK(px->ev.Subscribe(2).has_value(), "subscribe");
            if (user == 3) MC_CHECK(px->ev.SetReceiveHandler([&] { ++calls; }).has_value(), "handler");
            if (provider == 1) sk->StopOfferService();
        }
        seen.clear();
        const int a = mc::spawn([&] {
            switch (user)
            {
                case 0: MC_CHECK(px->ev.Subscribe(2).has_value(), "subscribing fails while the offer changes"); break;
                case 1: px->ev.Unsubscribe(); break;
                case 2: MC_CHECK(px->ev.SetReceiveHandler([&] { ++calls; }).has_value(), "setting a handler fails while the offer changes"); break;
                case 3: MC_CHECK(px->ev.UnsetReceiveHandler().has_value(), "removing a handler fails while the offer changes"); break;
                case 5: MC_CHECK(px->ev.UnsetSubscriptionStateChangeHandler().has_value(), "removing the state change handler fails"); removed = true; break;
                case 4: { int got = 0; auto r = px->ev.GetNewSamples([&](Ptr p) noexcept { ++got; MC_CHECK(*p == 7, "wrong sample"); }, 1); MC_CHECK(r.has_value() && int(*r) == got, "fetching fails while the offer changes"); fetched = got; break; }
            }
        }, "user");
        const int b = mc::spawn([&] {
            if (provider == 0) { if (user == 4) MC_CHECK(sk->ev.Send(7).has_value(), "send"); sk->StopOfferService(); }
            else MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered again");
        }, "provider");
        mc::join(a); mc::join(b);
        mc::NoPreempt np;
        const bool offered = provider == 1, sub = user != 1;
        const SubscriptionState want = !sub ? SubscriptionState::kNotSubscribed : offered ? SubscriptionState::kSubscribed : SubscriptionState::kSubscriptionPending;
        MC_CHECK(px->ev.GetSubscriptionState() == want, "the subscription ends in state " << int(px->ev.GetSubscriptionState()));
        if (user != 5) MC_CHECK(!seen.empty() && seen.back() == want, "the state change handler was told something else last");
        for (std::size_t i = 1; i < seen.size(); ++i) MC_CHECK(seen[i] != seen[i - 1], "a state is reported twice in a row");
        if (!offered) { MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered again"); }
        const int before = calls; MC_CHECK(sk->ev.Send(8).has_value(), "sending fails");
        if (user == 2) MC_CHECK(calls == before + 1, "the receive handler is called " << calls - before << " times for one sample");
        if (user == 3) MC_CHECK(calls == before, "a removed receive handler is called");
        mc::outcome(std::to_string(seen.size()) + (fetched ? "f" : ""));
        if (user != 2 && user != 3) MC_CHECK(s.bus.regs.empty(), "a receive handler is registered that nobody set");
        px->ev.Unsubscribe();
        MC_CHECK(s.bus.regs.empty(), "a receive handler stays registered after the end of the subscription");
        MC_CHECK(px->ev.Subscribe(2).has_value(), "the subscription's resources were not given back");
        px.reset(); MC_CHECK(s.bus.regs.empty() && s.sd.searches.empty(), "something stays registered"); sk.reset();
    });
}
MC_CASE(E06, threads)
{
    const int n = mc::tier(3, 5), o = mc::tier(2, 4);
    races("subscribe against stop offer", 0, 0, n); races("subscribe against offer", 0, 1, o);
    races("unsubscribe against stop offer", 1, 0, n); races("unsubscribe against offer", 1, 1, o);
    races("set handler against stop offer", 2, 0, n); races("set handler against offer", 2, 1, o);
    races("remove handler against stop offer", 3, 0, n); races("remove handler against offer", 3, 1, o);
    races("remove state handler against stop offer", 5, 0, n); races("remove state handler against offer", 5, 1, o);
    races("fetch against send and stop offer", 4, 0, n);
}
}  // namespace
