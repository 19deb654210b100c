// S01: method calls over the whole stack (real proxies and skeletons above in-memory services), and the pointer that
// guards a call's storage on its own.
#include "mc.h"
#include "stack.h"
#include "score/mw/com/impl/methods/method_signature_element_ptr.h"
#include "score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.h"
#include <set>
namespace
{
using namespace stack;
template <class T> struct Calc : T::Base
{
    using T::Base::Base;
    typename T::template Method<std::uint32_t(std::uint32_t, std::uint8_t)> m{*this, "m"};
    typename T::template Method<void(std::uint16_t)> n{*this, "n"};
};
template <class T> struct Plain : T::Base
{
    using T::Base::Base;
    typename T::template Method<std::uint64_t()> m{*this, "m"};
    typename T::template Method<void()> n{*this, "n"};
};
template <class T> struct Fld : T::Base
{
    using T::Base::Base;
    typename T::template Field<std::uint32_t, impl::WithGetter, impl::WithSetter, impl::WithNotifier> f{*this, "f"};
};
using CSkel = impl::SkeletonWrapperClass<Calc>; using CProx = impl::ProxyWrapperClass<Calc>;
using PSkel = impl::SkeletonWrapperClass<Plain>; using PProx = impl::ProxyWrapperClass<Plain>;
using FSkel = impl::SkeletonWrapperClass<Fld>; using FProx = impl::ProxyWrapperClass<Fld>;

struct Call { char method; int handler; std::uint32_t a; std::uint32_t b; };
std::uint32_t f(int handler, std::uint32_t a, std::uint8_t b) { return std::uint32_t(handler) * 1000000U + a * 256U + b; }

// What the calls have in common: one provider that comes and goes and N consumers.
template <class Skel, class Prox> struct World
{
    Stack s; std::unique_ptr<Skel> sk; bool offered{false}; int handler{0}; std::vector<Call> log; pid_t pid{1000};
    explicit World(bool asil_b) : s([&] { Plan p; p.slots = 1; p.methods = true; p.asil_b = asil_b; return p; }()) {}
    bool fail(bool& flag) { flag = !flag; return true; }
};

template <bool kB> struct CalcSys final : mc::System
{
    using InPtrs = std::tuple<impl::MethodInArgPtr<std::uint32_t>, impl::MethodInArgPtr<std::uint8_t>>;
    using Ret = impl::MethodReturnTypePtr<std::uint32_t>;
    static constexpr int N = 2;
    struct Con
    {
        std::unique_ptr<CProx> px; bool sub{false};
        std::optional<InPtrs> in; std::uint32_t a{0}; std::uint8_t b{0};
        std::optional<Ret> ret; std::uint32_t want{0};
        void clear() { ret.reset(); in.reset(); px.reset(); sub = false; }
    };
    World<CSkel, CProx> w{kB}; std::array<Con, N> c; std::uint32_t next{1}; bool made_failing{false};
    CalcSys() { fresh(); start(); for (int i = 0; i < N; ++i) make(i); }
    ~CalcSys() override { for (auto& x : c) { x.ret.reset(); x.in.reset(); x.px.reset(); } w.sk.reset(); }
    void fresh() { w.sk = std::make_unique<CSkel>(std::move(CSkel::Create(w.s.provided()).value())); reg(); MC_CHECK(w.sk->n.RegisterHandler([this](const std::uint16_t& a) { w.log.push_back({'n', 0, a, 0}); }).has_value(), "registering a handler fails"); }
    void reg()
    {
        const int h = ++w.handler;
        MC_CHECK(w.sk->m.RegisterHandler([this, h](std::uint32_t& r, const std::uint32_t& a, const std::uint8_t& b) { w.log.push_back({'m', h, a, b}); r = f(h, a, b); }).has_value(), "registering a handler fails");
    }
    void start() { auto r = w.sk->OfferService(); MC_CHECK(r.has_value(), "the service cannot be offered"); w.offered = r.has_value(); }
    void make(int i)
    {
        c[i].clear(); auto r = CProx::Create(w.s.handle(kB && i == 1));
        MC_CHECK(r.has_value() == !w.s.bus.fail_subscribe, "creating a proxy " << (r.has_value() ? "succeeds" : "fails"));
        if (r.has_value()) { c[i].px = std::make_unique<CProx>(std::move(r).value()); c[i].sub = true; }
    }
    enum Op { Offer, Stop, Renew, Rereg, FailCall, FailSub, kGlobal };
    enum POp { Life, Move, Alloc, InPlace, Copied, DropIn, DropRet, CallN, kPer };
    static constexpr int kOps = kGlobal + N * kPer;
    static std::string name(int o)
    {
        static const char* g[] = {"offer", "stop offer", "new provider object", "register another handler", "transport of calls fails/works", "transport of subscriptions fails/works"};
        static const char* p[] = {"create/destroy proxy", "move proxy", "allocate arguments", "call in place", "call with copied arguments", "drop arguments", "drop result", "call without result"};
        return o < kGlobal ? std::string{g[o]} : "consumer " + std::to_string((o - kGlobal) / kPer) + ": " + p[(o - kGlobal) % kPer];
    }
    void outcome(Con& x, score::Result<Ret>&& r, std::size_t before, std::uint32_t a, std::uint8_t b, bool works)
    {
        MC_CHECK(r.has_value() == works, "a call " << (works ? "fails" : "succeeds without a provider that can be reached"));
        MC_CHECK(w.log.size() - before == (works ? 1U : 0U), "the handler runs " << w.log.size() - before << " times for one call that " << (works ? "succeeds" : "fails"));
        if (works && w.log.size() == before + 1)
        {
            auto& l = w.log.back();
            MC_CHECK(l.method == 'm' && l.handler == w.handler, "the wrong handler runs");
            MC_CHECK(l.a == a && l.b == b, "the handler gets " << l.a << "," << l.b << " instead of " << a << "," << b);
        }
        if (r.has_value()) { x.want = f(w.handler, a, b); MC_CHECK(**r == x.want, "the result is " << **r << " instead of " << x.want); x.ret.emplace(std::move(r).value()); }
    }
    bool apply(int o) override
    {
        auto& bus = w.s.bus;
        switch (o)
        {
            case Offer: if (w.offered) return false; start(); for (auto& x : c) if (x.px) x.sub = !bus.fail_subscribe; return check();
            case Stop: if (!w.offered) return false; w.sk->StopOfferService(); w.offered = false; for (auto& x : c) x.sub = false; MC_CHECK(bus.calls.empty() && bus.subscribed.empty() && bus.unsubscribed.empty(), "handlers stay registered after the end of the offer"); return check();
            case Renew: if (w.offered) return false; w.sk.reset(); w.pid ^= 1; w.s.rt.rt[0]->pid = w.pid; fresh(); return check();
            case Rereg: reg(); return check();
            case FailCall: return w.fail(bus.fail_call) && check();
            case FailSub: return w.fail(bus.fail_subscribe) && check();
        }
        Con& x = c[(o - kGlobal) / kPer]; const std::size_t before = w.log.size();
        const bool works = x.sub && !bus.fail_call;
        const int p = (o - kGlobal) % kPer;
        if (p == Life)
        {
            if (!x.px) { if (!w.offered) return false; make((o - kGlobal) / kPer); return check(); }
            if (x.in || x.ret) return false;
            x.clear(); return check();
        }
        if (!x.px) return false;
        switch (p)
        {
            case Move: { auto n = std::make_unique<CProx>(std::move(*x.px)); x.px = std::move(n); break; }
            case Alloc:
            {
                const bool busy = x.in || x.ret;
                auto r = x.px->m.Allocate();
                MC_CHECK(r.has_value() == (x.sub && !busy), "allocating arguments " << (r.has_value() ? "succeeds" : "fails") << (x.sub ? busy ? " while the queue is full" : " while the queue is free" : " without subscription"));
                if (!r.has_value() && busy && x.sub) MC_CHECK(r.error() == impl::ComErrc::kCallQueueFull, "wrong error");
                if (r.has_value()) { x.in.emplace(std::move(r).value()); x.a = next++; x.b = std::uint8_t(next); *std::get<0>(*x.in) = x.a; *std::get<1>(*x.in) = x.b; }
                break;
            }
            case InPlace:
            {
                if (!x.in) return false;
                auto r = x.px->m(std::move(std::get<0>(*x.in)), std::move(std::get<1>(*x.in))); x.in.reset();
                outcome(x, std::move(r), before, x.a, x.b, works);
                break;
            }
            case Copied:
            {
                const bool busy = x.in || x.ret; const std::uint32_t a = next++; const std::uint8_t b = std::uint8_t(next);
                auto r = x.px->m(a, b);
                if (busy) { MC_CHECK(!r.has_value() && w.log.size() == before, "a call succeeds while the queue is full"); break; }
                outcome(x, std::move(r), before, a, b, works);
                break;
            }
            case DropIn: if (!x.in) return false; x.in.reset(); break;
            case DropRet: if (!x.ret) return false; x.ret.reset(); break;
            case CallN:
            {
                const std::uint16_t a = std::uint16_t(next++);
                auto r = x.px->n(a);
                MC_CHECK(r.has_value() == works, "a call without result "  << (works ? "fails" : "succeeds without a provider that can be reached"));
                MC_CHECK(w.log.size() - before == (works ? 1U : 0U), "the handler runs " << w.log.size() - before << " times for a call without result");
                if (works && w.log.size() == before + 1) MC_CHECK(w.log.back().method == 'n' && w.log.back().a == a, "the handler of a call without result gets the wrong arguments");
                break;
            }
        }
        return check();
    }
    bool check()
    {
        std::size_t want = 0;
        for (auto& x : c)
        {
            if (x.ret) MC_CHECK(**x.ret == x.want, "a held result changed to " << **x.ret);
            if (x.in) MC_CHECK(*std::get<0>(*x.in) == x.a && *std::get<1>(*x.in) == x.b, "arguments changed");
            if (x.sub) want += 2;
        }
        MC_CHECK(w.s.bus.calls.size() == want, w.s.bus.calls.size() << " call handlers are registered for " << want << " methods of subscribed proxies");
        return true;
    }
    std::string canon() override
    {
        std::ostringstream o; o << w.offered << w.pid << w.s.bus.fail_call << w.s.bus.fail_subscribe << "|";
        for (auto& x : c) o << bool(x.px) << x.sub << bool(x.in) << bool(x.ret);
        return o.str();
    }
    void finish() override
    {
        for (auto& x : c) x.clear();
        check(); const bool was = w.offered;   // otherwise the shared memory was kept for the proxies and stays
        MC_CHECK(w.s.sd.searches.empty(), "a search goes on after its proxy is gone");
        w.sk.reset();
        MC_CHECK(w.s.bus.subscribed.empty() && w.s.bus.unsubscribed.empty(), "the provider stays registered");
        if (was) for (auto& n : w.s.os.k.names) MC_CHECK(n.first[0] != 'S', "shared memory is left over: " << n.first);
    }
};
MC_CASE(S01, calls_qm)
{
    mc::bfs("two consumers: method calls", mc::BfsConfig{mc::tier(8, 20)}, CalcSys<false>::kOps, CalcSys<false>::name, [] { return std::unique_ptr<mc::System>(new CalcSys<false>()); });
}
MC_CASE(S01, calls_b)
{
    mc::bfs("a QM and an ASIL-B consumer: method calls", mc::BfsConfig{mc::tier(8, 20)}, CalcSys<true>::kOps, CalcSys<true>::name, [] { return std::unique_ptr<mc::System>(new CalcSys<true>()); });
}

// ---- signatures without arguments or without result -------------------------------------------------------------
struct PlainSys final : mc::System
{
    World<PSkel, PProx> w{false}; std::unique_ptr<PProx> px[2]; bool sub[2]{}; std::optional<impl::MethodReturnTypePtr<std::uint64_t>> ret[2]; std::uint64_t want[2]{}; std::uint64_t count{0}; int ncalls{0};
    PlainSys()
    {
        w.sk = std::make_unique<PSkel>(std::move(PSkel::Create(w.s.provided()).value()));
        MC_CHECK(w.sk->m.RegisterHandler([this](std::uint64_t& r) { r = (++count) << 33U; }).has_value() && w.sk->n.RegisterHandler([this] { ++ncalls; }).has_value(), "registering a handler fails");
        toggle(); make(0); make(1);
    }
    ~PlainSys() override { for (int i = 0; i < 2; ++i) { ret[i].reset(); px[i].reset(); } w.sk.reset(); }
    void toggle() { if (w.offered) { w.sk->StopOfferService(); w.offered = false; sub[0] = sub[1] = false; } else { MC_CHECK(w.sk->OfferService().has_value(), "the service cannot be offered"); w.offered = true; for (int i = 0; i < 2; ++i) sub[i] = px[i] != nullptr; } }
    void make(int i) { auto r = PProx::Create(w.s.handle(false)); MC_CHECK(r.has_value(), "creating a proxy fails"); if (r.has_value()) px[i] = std::make_unique<PProx>(std::move(r).value()); sub[i] = r.has_value(); }
    enum Op { Toggle, FailCall, kGlobal };
    enum POp { Life, CallM, CallN, Drop, Move, kPer };
    static constexpr int kOps = kGlobal + 2 * kPer;
    static std::string name(int o)
    {
        static const char* g[] = {"stop offer/offer", "transport of calls fails/works"}; static const char* p[] = {"create/destroy proxy", "call m()", "call n()", "drop result", "move proxy"};
        return o < kGlobal ? std::string{g[o]} : "consumer " + std::to_string((o - kGlobal) / kPer) + ": " + p[(o - kGlobal) % kPer];
    }
    bool apply(int o) override
    {
        if (o == Toggle) { toggle(); return check(); }
        if (o == FailCall) { w.s.bus.fail_call = !w.s.bus.fail_call; return check(); }
        const int i = (o - kGlobal) / kPer, p = (o - kGlobal) % kPer; const bool works = sub[i] && !w.s.bus.fail_call;
        if (p == Life) { if (px[i]) { if (ret[i]) return false; px[i].reset(); sub[i] = false; } else { if (!w.offered) return false; make(i); } return check(); }
        if (!px[i]) return false;
        if (p == Move) { auto n = std::make_unique<PProx>(std::move(*px[i])); px[i] = std::move(n); return check(); }
        if (p == Drop) { if (!ret[i]) return false; ret[i].reset(); return check(); }
        if (p == CallM)
        {
            const auto before = count; const bool busy = ret[i].has_value(); auto r = px[i]->m();
            MC_CHECK(r.has_value() == (works && !busy), "a call " << (r.has_value() ? "succeeds" : "fails"));
            MC_CHECK(count - before == (works && !busy ? 1U : 0U), "the handler runs " << count - before << " times for one call");
            if (r.has_value()) { want[i] = count << 33U; MC_CHECK(**r == want[i], "wrong result"); ret[i].emplace(std::move(r).value()); }
        }
        else
        {
            const auto before = ncalls; auto r = px[i]->n();
            MC_CHECK(r.has_value() == works, "a call " << (r.has_value() ? "succeeds" : "fails"));
            MC_CHECK(ncalls - before == (works ? 1 : 0), "the handler runs " << ncalls - before << " times for one call");
        }
        return check();
    }
    bool check() { for (int i = 0; i < 2; ++i) if (ret[i]) MC_CHECK(**ret[i] == want[i], "a held result changed"); MC_CHECK(w.s.bus.calls.size() == 2U * (unsigned(sub[0]) + unsigned(sub[1])), "call handlers do not match the subscribed proxies"); return true; }
    std::string canon() override { std::ostringstream o; o << w.offered << w.s.bus.fail_call; for (int i = 0; i < 2; ++i) o << bool(px[i]) << sub[i] << bool(ret[i]); return o.str(); }
    void finish() override { for (int i = 0; i < 2; ++i) { ret[i].reset(); px[i].reset(); sub[i] = false; } check(); }
};
MC_CASE(S01, plain)
{
    mc::bfs("methods without arguments or result", mc::BfsConfig{mc::tier(8, 20)}, PlainSys::kOps, PlainSys::name, [] { return std::unique_ptr<mc::System>(new PlainSys()); });
}

// ---- fields: reading and writing through methods ------------------------------------------------------------------
template <bool kB> struct FieldSys final : mc::System
{
    using Ptr = impl::SamplePtr<std::uint32_t>;
    static Plan plan() { Plan p; p.slots = 1; p.get = p.set = true; p.asil_b = kB; p.f_slots = 3; return p; }
    struct Con { std::unique_ptr<FProx> px; bool sub{false}; int subscribed{0}; std::vector<std::pair<Ptr, std::uint32_t>> held; std::uint32_t last{0}; };
    Stack s{plan()}; std::unique_ptr<FSkel> sk; bool offered{false}; std::array<Con, 2> c; std::uint32_t value{0}, initial{0}, next{1}; int handled{0};   // value 0: the field has none (see O01)
    std::uint32_t given{0};
    FieldSys() { fresh(); toggle(); make(0); make(1); }
    ~FieldSys() override { for (auto& x : c) { x.held.clear(); x.px.reset(); } sk.reset(); }
    void fresh()
    {
        sk = std::make_unique<FSkel>(std::move(FSkel::Create(s.provided()).value()));
        // accepts odd values, corrects even ones
        MC_CHECK(sk->f.RegisterSetHandler([this](std::uint32_t& v) { ++handled; given = v; v |= 1U; }).has_value(), "registering a set handler fails");
        initial = next++; MC_CHECK(sk->f.Update(initial).has_value(), "setting the initial value fails");
    }
    void toggle()
    {
        if (offered) { sk->StopOfferService(); offered = false; bool kept = false; for (auto& x : c) { x.sub = false; kept = kept || x.px; } if (!kept) value = 0; }
        else { auto r = sk->OfferService(); MC_CHECK(r.has_value(), "the service cannot be offered"); offered = true; if (initial) value = initial; initial = 0; for (auto& x : c) x.sub = x.px != nullptr; }
    }
    void make(int i) { auto r = FProx::Create(s.handle(kB && i == 1)); MC_CHECK(r.has_value(), "creating a proxy fails"); if (r.has_value()) { c[i].px = std::make_unique<FProx>(std::move(r).value()); c[i].sub = true; } c[i].subscribed = 0; c[i].last = 0; }
    enum Op { Stop, Renew, Update, FailCall, kGlobal };
    enum POp { Life, Get, SetOdd, SetEven, Subscribe, Fetch, Release, kPer };
    static constexpr int kOps = kGlobal + 2 * kPer;
    static std::string name(int o)
    {
        static const char* g[] = {"stop offer/offer", "new provider object", "update", "transport of calls fails/works"}; static const char* p[] = {"create/destroy proxy", "get", "set odd", "set even", "subscribe/unsubscribe", "fetch", "release"};
        return o < kGlobal ? std::string{g[o]} : "consumer " + std::to_string((o - kGlobal) / kPer) + ": " + p[(o - kGlobal) % kPer];
    }
    bool room() { std::set<std::uint32_t> d; for (auto& x : c) for (auto& h : x.held) d.insert(h.second); return d.size() < 3; }
    bool apply(int o) override
    {
        if (o == Stop) { toggle(); return check(); }
        if (o == Renew) { if (offered) return false; sk.reset(); s.rt.rt[0]->pid ^= 1; fresh(); return check(); }
        if (o == FailCall) { s.bus.fail_call = !s.bus.fail_call; return check(); }
        if (o == Update)
        {
            if (!offered || !room()) return false;
            auto r = sk->f.Update(next); MC_CHECK(r.has_value(), "an update fails with room"); if (r.has_value()) value = next; next++;
            return check();
        }
        Con& x = c[(o - kGlobal) / kPer]; const int p = (o - kGlobal) % kPer; const bool works = x.sub && !s.bus.fail_call;
        if (p == Life) { if (x.px) { if (!x.held.empty()) return false; x.px.reset(); x.sub = false; x.subscribed = 0; } else { if (!offered) return false; make((o - kGlobal) / kPer); } return check(); }
        if (!x.px) return false;
        switch (p)
        {
            case Get: { auto r = x.px->f.Get(); MC_CHECK(r.has_value() == (works && value), "reading the field " << (works ? "fails" : "succeeds without a provider that can be reached")); if (r.has_value()) MC_CHECK(**r == value, "reading the field gives " << **r << " instead of " << value); break; }
            case SetOdd: case SetEven:
            {
                std::uint32_t v = next; next += 2; v = (v & ~1U) + (p == SetOdd ? 1U : 0U); next = (v | 1U) + 1U;
                const int before = handled; const bool fits = room();
                if (!fits) return false;
                auto r = x.px->f.Set(v);
                MC_CHECK(r.has_value() == works, "writing the field " << (works ? "fails" : "succeeds without a provider that can be reached"));
                MC_CHECK(handled - before == (works ? 1 : 0), "the set handler runs " << handled - before << " times for one write");
                if (works) { MC_CHECK(given == v, "the set handler gets another value"); value = v | 1U; }
                if (r.has_value()) MC_CHECK(**r == value, "the accepted value is " << **r << " instead of " << value);
                break;
            }
            case Subscribe:
                if (!x.held.empty()) return false;
                if (x.subscribed) { x.px->f.Unsubscribe(); x.subscribed = 0; } else { auto r = x.px->f.Subscribe(1); MC_CHECK(r.has_value(), "subscribing fails"); x.subscribed = 1; x.last = 0; }
                break;
            case Fetch:
            {
                if (!x.subscribed || !x.held.empty()) return false;
                const std::uint32_t before = x.last; std::uint32_t got = 0;
                // a proxy that stays over the end of its provider keeps what it had
                auto r = x.px->f.GetNewSamples([&](Ptr q) noexcept { got = *q; x.held.emplace_back(std::move(q), got); }, 1);
                MC_CHECK(r.has_value(), "fetching fails");
                MC_CHECK(got == (before == value ? 0U : value), "fetching delivers " << got << " instead of the newest value " << value); if (got) x.last = got;
                break;
            }
            case Release: if (x.held.empty()) return false; x.held.clear(); break;
        }
        return check();
    }
    bool check()
    {
        std::size_t want = 0; int held = 0;
        for (auto& x : c) { if (x.sub) want += 2; for (auto& h : x.held) { MC_CHECK(*h.first == h.second, "a held sample changed"); ++held; } }
        MC_CHECK(s.bus.calls.size() == want, s.bus.calls.size() << " call handlers are registered for " << want << " methods of subscribed proxies");
        bool any = offered; for (auto& x : c) any = any || x.px;
        if (!any) return true;
        int refs = 0;
        for (auto q : {QualityType::kASIL_QM, QualityType::kASIL_B}) if (q == QualityType::kASIL_QM || kB)
            for (auto& w : s.event(q, 3, impl::ServiceElementType::FIELD).data_control.state_slots_) { lola::EventSlotStatus v{w.load()}; if (!v.IsInvalid() && !v.IsInWriting()) refs += v.GetReferenceCount(); }
        MC_CHECK(refs == held, refs << " references are held on the slots of the field instead of " << held);
        return true;
    }
    std::string canon() override
    {
        std::ostringstream o; o << offered << s.rt.rt[0]->pid << s.bus.fail_call << (next & 1U) << bool(value) << bool(initial);
        for (auto& x : c) { o << bool(x.px) << x.sub << x.subscribed << (x.last ? x.last == value ? 'c' : 'o' : '-'); for (auto& h : x.held) o << (h.second == value ? 'C' : 'O'); }
        return o.str();
    }
    void finish() override { for (auto& x : c) { x.held.clear(); x.px.reset(); x.sub = false; } check(); }
};
MC_CASE(S01, field_qm)
{
    mc::bfs("two consumers: reading and writing a field", mc::BfsConfig{mc::tier(7, 12)}, FieldSys<false>::kOps, FieldSys<false>::name, [] { return std::unique_ptr<mc::System>(new FieldSys<false>()); });
}
MC_CASE(S01, field_b)
{
    mc::bfs("a QM and an ASIL-B consumer: reading and writing a field", mc::BfsConfig{mc::tier(7, 12)}, FieldSys<true>::kOps, FieldSys<true>::name, [] { return std::unique_ptr<mc::System>(new FieldSys<true>()); });
}

// ---- threads ---------------------------------------------------------------------------------------------------------
enum Other { OtherCall, StopOffer, Offer, Destroy, Create };
void race(const char* name, Other other, int preempt)
{
    mc::explore(name, mc::Config{preempt}, [=] {
        Plan pl; pl.slots = 1; pl.methods = true; Stack s(pl); std::unique_ptr<CSkel> sk; std::unique_ptr<CProx> px, py; bool stopped = false; std::vector<Call> log; log.reserve(8); int inside = 0;
        {
            mc::NoPreempt np;
            sk = std::make_unique<CSkel>(std::move(CSkel::Create(s.provided()).value()));
            MC_CHECK(sk->m.RegisterHandler([&](std::uint32_t& r, const std::uint32_t& a, const std::uint8_t& b) { ++inside; mc::point("handler"); MC_CHECK(!stopped, "a handler runs after the end of the offer"); log.push_back({'m', 1, a, b}); r = f(1, a, b); mc::point("handler"); --inside; }).has_value() && sk->n.RegisterHandler([](const std::uint16_t&) {}).has_value(), "registering a handler fails");
            MC_CHECK(sk->OfferService().has_value(), "offer");
            px = std::make_unique<CProx>(std::move(CProx::Create(s.handle(false)).value()));
            if (other != Create) py = std::make_unique<CProx>(std::move(CProx::Create(s.handle(false)).value()));
            if (other == Offer) sk->StopOfferService();
        }
        bool ok = false, ok2 = false;
        const int a = mc::spawn([&] { auto r = px->m(11U, std::uint8_t{1}); ok = r.has_value(); if (ok) MC_CHECK(**r == f(1, 11, 1), "a caller gets the result " << **r << " of somebody else"); }, "caller");
        const int b = mc::spawn([&] {
            switch (other)
            {
                case OtherCall: { auto r = py->m(22U, std::uint8_t{2}); ok2 = r.has_value(); if (ok2) MC_CHECK(**r == f(1, 22, 2), "a caller gets the result " << **r << " of somebody else"); break; }
                case StopOffer: sk->StopOfferService(); stopped = true; MC_CHECK(inside == 0, "a handler still runs after the end of the offer"); break;
                case Offer: MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered again"); break;
                case Destroy: py.reset(); break;
                case Create: { auto r = CProx::Create(s.handle(false)); MC_CHECK(r.has_value(), "creating a proxy fails"); if (r.has_value()) py = std::make_unique<CProx>(std::move(r).value()); break; }
            }
        }, "other");
        mc::join(a); mc::join(b);
        mc::NoPreempt np;
        if (other == OtherCall || other == Destroy || other == Create) MC_CHECK(ok, "a call fails while the service is offered");
        if (other == OtherCall) MC_CHECK(ok2, "a call fails while the service is offered");
        int runs = 0, runs2 = 0; for (auto& l : log) { if (l.a == 11 && l.b == 1) ++runs; else if (l.a == 22 && l.b == 2) ++runs2; else mc::violation("the handler gets arguments nobody called with"); }
        MC_CHECK(runs == (ok ? 1 : 0) || (!ok && runs == 1 && other == StopOffer), "the handler runs " << runs << " times for a call that " << (ok ? "succeeds" : "fails"));
        MC_CHECK(runs2 == (ok2 ? 1 : 0), "the handler runs " << runs2 << " times for the second call");
        stopped = false;
        if (other == StopOffer) MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered again");
        auto r = px->m(5U, std::uint8_t{5}); MC_CHECK(r.has_value() && **r == f(1, 5, 5), "a call fails after both threads are done");
        if (py) { auto q = py->m(6U, std::uint8_t{6}); MC_CHECK(q.has_value() && **q == f(1, 6, 6), "a call of the other consumer fails after both threads are done"); }
        mc::outcome(std::to_string(ok) + std::to_string(runs) + std::to_string(ok2));
    });
}
MC_CASE(S01, threads)
{
    const int n = mc::tier(3, 5);
    race("two callers", OtherCall, n); race("call against stop offer", StopOffer, n); race("call against offer", Offer, n); race("call against destruction of another proxy", Destroy, n); race("call against creation of another proxy", Create, n);
    mc::explore("two writers of one field", mc::Config{n}, [] {
        Plan pl; pl.slots = 1; pl.get = pl.set = true; pl.f_slots = 3; Stack s(pl); std::unique_ptr<FSkel> sk; std::unique_ptr<FProx> p[2]; std::vector<std::uint32_t> given; given.reserve(4); int inside = 0;
        {
            mc::NoPreempt np;
            sk = std::make_unique<FSkel>(std::move(FSkel::Create(s.provided()).value()));
            MC_CHECK(sk->f.RegisterSetHandler([&](std::uint32_t& v) { MC_CHECK(++inside == 1, "two set handlers run at once"); given.push_back(v); mc::point("handler"); v += 100; --inside; }).has_value() && sk->f.Update(1).has_value() && sk->OfferService().has_value(), "offer");
            for (auto& x : p) x = std::make_unique<FProx>(std::move(FProx::Create(s.handle(false)).value()));
        }
        std::uint32_t seen = 0; std::array<int, 2> t;
        for (int i = 0; i < 2; ++i) t[i] = mc::spawn([&, i] { auto r = p[i]->f.Set(10U + i); MC_CHECK(r.has_value() && **r == 110U + i, "a writer gets a wrong answer"); }, "writer");
        mc::join(t[0]); mc::join(t[1]);
        mc::NoPreempt np;
        MC_CHECK(given.size() == 2, "the set handler runs " << given.size() << " times for two writes");
        { auto r = p[0]->f.Get(); MC_CHECK(r.has_value(), "reading fails"); if (r.has_value()) seen = **r; }
        MC_CHECK(!given.empty() && seen == given.back() + 100U, "the field does not hold the value written last");
        mc::outcome(std::to_string(seen));
    });
}

// ---- the pointer that guards a call's storage ------------------------------------------------------------------------
// Pointers over two storages; each flag is set exactly while a pointer owns its storage.
struct PtrSys final : mc::System
{
    using P = impl::MethodSignatureElementPtr<std::uint32_t>; using Q = impl::MethodSignatureElementPtr<score::Result<std::uint32_t>>;
    struct Store { std::uint32_t v{5}; score::Result<std::uint32_t> r{7U}; bool active{false}; } st[2];
    struct Slot { std::optional<P> p; std::optional<Q> q; int store{-1}; bool live{false}; } sl[3];
    static constexpr int kOps = 2 * 3 * 2 + 3 * 3 + 3 * 3 + 3;
    static std::string name(int o)
    {
        if (o < 12) return std::string{o % 2 ? "take result of storage " : "take value of storage "} + std::to_string(o / 2 % 2) + " into " + std::to_string(o / 4);
        o -= 12; if (o < 9) return "move " + std::to_string(o / 3) + " to " + std::to_string(o % 3);
        o -= 9; if (o < 9) return "convert " + std::to_string(o / 3) + " to " + std::to_string(o % 3);
        return "destroy " + std::to_string(o - 9);
    }
    bool apply(int o) override
    {
        if (o < 12)
        {
            const int s = o / 2 % 2; Slot& d = sl[o / 4]; if (st[s].active || d.p || d.q) return false;
            if (o % 2) d.q.emplace(st[s].r, st[s].active, s + 3U); else d.p.emplace(st[s].v, st[s].active, s + 3U);
            d.store = s; d.live = true; return check();
        }
        o -= 12;
        if (o < 9)
        {
            Slot &a = sl[o / 3], &b = sl[o % 3]; if (&a == &b || b.p || b.q || (!a.p && !a.q)) return false;
            if (a.p) b.p.emplace(std::move(*a.p)); else b.q.emplace(std::move(*a.q));
            b.store = a.store; b.live = a.live; a.live = false; return check();
        }
        o -= 9;
        if (o < 9)
        {
            Slot &a = sl[o / 3], &b = sl[o % 3]; if (&a == &b || b.p || b.q || !a.live) return false;
            if (a.q) b.p.emplace(st[a.store].r.value(), std::move(*a.q)); else b.q.emplace(st[a.store].r, std::move(*a.p));
            b.store = a.store; b.live = true; a.live = false; return check();
        }
        Slot& d = sl[o - 9]; if (!d.p && !d.q) return false;
        d.p.reset(); d.q.reset(); d.live = false; return check();
    }
    bool check()
    {
        bool want[2] = {false, false};
        for (auto& x : sl)
        {
            if (x.live) want[x.store] = true;
            const void* e = x.p ? static_cast<const void*>(x.p->get()) : x.q ? static_cast<const void*>(x.q->get()) : nullptr;
            MC_CHECK((e != nullptr) == x.live, "a pointer that " << (x.live ? "owns its storage is null" : "was moved from still points at it"));
            if (!x.live) continue;
            MC_CHECK((x.p ? x.p->GetQueuePosition() : x.q->GetQueuePosition()) == x.store + 3U, "a pointer forgot its position");
            MC_CHECK(x.q ? e == &st[x.store].r : (e == &st[x.store].v || e == &st[x.store].r.value()), "a pointer points elsewhere");
        }
        for (int i = 0; i < 2; ++i) MC_CHECK(st[i].active == want[i], "a storage is " << (want[i] ? "free although a pointer owns it" : "in use although no pointer owns it"));
        return true;
    }
    std::string canon() override { std::ostringstream o; for (auto& x : sl) o << bool(x.p) << bool(x.q) << (x.live ? x.store : -1); return o.str(); }
    void finish() override { for (auto& x : sl) { x.p.reset(); x.q.reset(); x.live = false; } check(); }
};
MC_CASE(S01, pointers)
{
    mc::bfs("pointers to arguments and results", mc::BfsConfig{40}, PtrSys::kOps, PtrSys::name, [] { return std::unique_ptr<mc::System>(new PtrSys()); });
}

// ---- the provider's book-keeping of subscribed consumers, which may have died and come back -------------------------
// Two applications with up to two proxies each; an application that died comes back with another process id and
// subscribes again without having unsubscribed. Each proxy has a call queue of two positions.
struct BookSys final : mc::System
{
    static constexpr int kApps = 2, kPx = 2;
    using Id = lola::ProxyInstanceIdentifier;
    struct Region { std::shared_ptr<score::memory::shared::ManagedMemoryResource> r; std::optional<score::cpp::span<std::byte>> in, out; } reg[kApps][kPx];
    Stack s{[] { Plan p; p.slots = 1; p.methods = true; p.queue = 2; return p; }()};
    std::unique_ptr<CSkel> sk; bool sub[kApps][kPx]{}; int pid[kApps]{}; bool offered{true}; std::vector<Call> log; std::uint32_t next{1};
    static lola::TypeErasedCallQueue::TypeErasedElementInfo info() { return {impl::CreateDataTypeSizeInfoFromTypes<std::uint32_t, std::uint8_t>(), impl::CreateDataTypeSizeInfoFromTypes<std::uint32_t>(), 2}; }
    static Id id(int a, int p) { return Id{impl::GlobalConfiguration::ApplicationId(40U + a), static_cast<Id::ProxyInstanceCounter>(p)}; }
    BookSys()
    {
        sk = std::make_unique<CSkel>(std::move(CSkel::Create(s.provided()).value()));
        MC_CHECK(sk->m.RegisterHandler([this](std::uint32_t& r, const std::uint32_t& a, const std::uint8_t& b) { log.push_back({'m', 1, a, b}); r = f(1, a, b); }).has_value() && sk->n.RegisterHandler([](const std::uint16_t&) {}).has_value(), "registering a handler fails");
        MC_CHECK(sk->OfferService().has_value(), "offer");
        for (int a = 0; a < kApps; ++a) for (int p = 0; p < kPx; ++p)
        {
            auto& g = reg[a][p];
            g.r = score::memory::shared::SharedMemoryFactory::Create(lola::ShmPathBuilder{7}.GetMethodChannelShmName(5, id(a, p)), [&g](std::shared_ptr<score::memory::shared::ManagedMemoryResource> m) {
                auto* d = m->construct<lola::MethodData>(1U, *m);
                auto& e = d->method_call_queues_.emplace_back(std::piecewise_construct, std::forward_as_tuple(lola::UniqueMethodIdentifier{4, impl::MethodType::kMethod}), std::forward_as_tuple(*m, info()));
                g.in = e.second.GetInArgValuesQueueStorage(); g.out = e.second.GetReturnValueQueueStorage(); }, 2000U);
            MC_CHECK(g.r != nullptr, "no shared memory");
        }
    }
    ~BookSys() override { sk.reset(); }
    enum Op { Offer, kGlobal };
    static constexpr int kOps = kGlobal + kApps + kApps * kPx * 4;
    static std::string name(int o)
    {
        if (o == Offer) return "stop offer/offer";
        o -= kGlobal; if (o < kApps) return "application " + std::to_string(o) + " dies and comes back";
        o -= kApps; static const char* w[] = {"subscribes", "unsubscribes", "calls at position 0", "calls at position 1"};
        return "proxy " + std::to_string(o / 4 % kPx) + " of application " + std::to_string(o / 4 / kPx) + " " + w[o % 4];
    }
    int known[kApps]{};   // the process id the provider knows
    bool apply(int o) override
    {
        if (o == Offer)
        {
            if (offered) { sk->StopOfferService(); for (auto& a : sub) for (auto& p : a) p = false; } else MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered again");
            offered = !offered; return check();
        }
        o -= kGlobal;
        if (o < kApps) { if (pid[o] >= 2) return false; ++pid[o]; return check(); }
        o -= kApps; const int a = o / 4 / kPx, p = o / 4 % kPx; auto& g = reg[a][p];
        const lola::SkeletonInstanceIdentifier to{7, 5}; s.bus.client_pid = 100 * (a + 1) + pid[a];
        if (o % 4 == 0)
        {
            auto r = s.bus.SubscribeServiceMethod(QualityType::kASIL_QM, to, id(a, p), 1000);
            MC_CHECK(r.has_value() == offered, "subscribing " << (r.has_value() ? "succeeds" : "fails"));
            if (offered) { if (known[a] != pid[a]) for (auto& q : sub[a]) q = false; known[a] = pid[a]; sub[a][p] = true; }
        }
        else if (o % 4 == 1)
        {
            if (!sub[a][p] || known[a] != pid[a]) return false;
            auto r = s.bus.UnsubscribeServiceMethod(QualityType::kASIL_QM, to, id(a, p), 1000); MC_CHECK(r.has_value(), "unsubscribing fails"); sub[a][p] = false;
        }
        else
        {
            if (known[a] != pid[a] && sub[a][p]) return false;   // of the process that died
            const std::size_t pos = o % 4 - 2; const std::uint32_t v = next++; const std::uint8_t b = std::uint8_t(next);
            auto at = lola::GetInArgValuesElementStorage(pos, *g.in, info()); auto [pa, pb] = impl::DeserializeArgs<std::uint32_t, std::uint8_t>(at); *pa = v; *pb = b;
            auto out0 = impl::DeserializeArg<std::uint32_t>(lola::GetReturnValueElementStorage(0, *g.out, info())), out1 = impl::DeserializeArg<std::uint32_t>(lola::GetReturnValueElementStorage(1, *g.out, info()));
            *out0 = *out1 = 0; const auto before = log.size();
            auto r = s.bus.CallMethod(QualityType::kASIL_QM, lola::ProxyMethodInstanceIdentifier{id(a, p), {4, impl::MethodType::kMethod}}, pos, 1000);
            MC_CHECK(r.has_value() == sub[a][p], "a call of a proxy that is " << (sub[a][p] ? "subscribed fails" : "not subscribed succeeds"));
            MC_CHECK(log.size() - before == (sub[a][p] ? 1U : 0U), "the handler runs " << log.size() - before << " times");
            if (log.size() > before) { MC_CHECK(log.back().a == v && log.back().b == b, "the handler gets other arguments"); MC_CHECK((pos ? *out1 : *out0) == f(1, v, b) && (pos ? *out0 : *out1) == 0, "the result is put at the wrong place"); }
        }
        return check();
    }
    bool check() { std::size_t n = 0; for (auto& a : sub) for (auto& p : a) n += p; MC_CHECK(s.bus.calls.size() == n, s.bus.calls.size() << " call handlers are registered for " << n << " subscribed proxies"); return true; }
    std::string canon() override { std::ostringstream o; o << offered; for (int a = 0; a < kApps; ++a) { o << pid[a] << known[a]; for (auto& p : sub[a]) o << p; } return o.str(); }
    void finish() override { sk.reset(); MC_CHECK(s.bus.calls.empty() && s.bus.subscribed.empty(), "handlers stay registered"); for (auto& a : reg) for (auto& p : a) MC_CHECK(p.r.use_count() == 1, "the provider keeps the memory of a consumer"); }
};
MC_CASE(S01, book_keeping)
{
    mc::bfs("subscriptions of consumers that come back", mc::BfsConfig{40}, BookSys::kOps, BookSys::name, [] { return std::unique_ptr<mc::System>(new BookSys()); });
}

// Every shape of a method called at every position of its queue.
template <class Skel, class Reg> void positions(std::size_t size, bool in_a, bool out_a, bool in_b, bool out_b, Reg reg)
{
    // method "m" (id 4): (u32,u8)->u32 or ()->u64; method "n" (id 5): (u16)->void or ()->void
    Stack s{[&] { Plan p; p.slots = 1; p.methods = true; p.queue = static_cast<int>(size); return p; }()};
    auto sk = std::make_unique<Skel>(std::move(Skel::Create(s.provided()).value()));
    std::vector<Call> log; reg(*sk, log);
    MC_CHECK(sk->OfferService().has_value(), "offer");
    using Info = lola::TypeErasedCallQueue::TypeErasedElementInfo;
    using SizeInfo = std::optional<decltype(impl::CreateDataTypeSizeInfoFromTypes<std::uint32_t>())>;
    const Info im{in_a ? SizeInfo{impl::CreateDataTypeSizeInfoFromTypes<std::uint32_t, std::uint8_t>()} : SizeInfo{}, !out_a ? SizeInfo{} : in_a ? SizeInfo{impl::CreateDataTypeSizeInfoFromTypes<std::uint32_t>()} : SizeInfo{impl::CreateDataTypeSizeInfoFromTypes<std::uint64_t>()}, size};
    const Info in{in_b ? SizeInfo{impl::CreateDataTypeSizeInfoFromTypes<std::uint16_t>()} : SizeInfo{}, SizeInfo{}, size};
    (void)out_b;
    std::optional<score::cpp::span<std::byte>> a0, r0, a1;
    const lola::ProxyInstanceIdentifier id{impl::GlobalConfiguration::ApplicationId(40U), 0};
    auto region = score::memory::shared::SharedMemoryFactory::Create(lola::ShmPathBuilder{7}.GetMethodChannelShmName(5, id), [&](std::shared_ptr<score::memory::shared::ManagedMemoryResource> m) {
        auto* d = m->construct<lola::MethodData>(2U, *m);
        auto& e = d->method_call_queues_.emplace_back(std::piecewise_construct, std::forward_as_tuple(lola::UniqueMethodIdentifier{4, impl::MethodType::kMethod}), std::forward_as_tuple(*m, im));
        a0 = e.second.GetInArgValuesQueueStorage(); r0 = e.second.GetReturnValueQueueStorage();
        auto& f = d->method_call_queues_.emplace_back(std::piecewise_construct, std::forward_as_tuple(lola::UniqueMethodIdentifier{5, impl::MethodType::kMethod}), std::forward_as_tuple(*m, in));
        a1 = f.second.GetInArgValuesQueueStorage(); }, 4000U);
    MC_CHECK(a0.has_value() == in_a && r0.has_value() == out_a && a1.has_value() == in_b, "a queue holds storage for values its method does not have, or none for those it has");
    s.bus.client_pid = 100;
    MC_CHECK(s.bus.SubscribeServiceMethod(QualityType::kASIL_QM, lola::SkeletonInstanceIdentifier{7, 5}, id, 1000).has_value(), "subscribing fails");
    std::vector<std::uint64_t> want(size, 0);
    auto put64 = [&](std::size_t p, std::uint64_t v) { if (in_a) *impl::DeserializeArg<std::uint32_t>(lola::GetReturnValueElementStorage(p, *r0, im)) = std::uint32_t(v); else *impl::DeserializeArg<std::uint64_t>(lola::GetReturnValueElementStorage(p, *r0, im)) = v; };
    auto get64 = [&](std::size_t p) -> std::uint64_t { return in_a ? *impl::DeserializeArg<std::uint32_t>(lola::GetReturnValueElementStorage(p, *r0, im)) : *impl::DeserializeArg<std::uint64_t>(lola::GetReturnValueElementStorage(p, *r0, im)); };
    if (out_a) for (std::size_t p = 0; p < size; ++p) put64(p, 0);
    for (int k = 0; k < mc::tier(3, 4); ++k)
    {
        const bool second = mc::choose(2, "method"); const std::size_t pos = static_cast<std::size_t>(mc::choose(static_cast<int>(size), "position")); const std::uint32_t v = 100U + static_cast<std::uint32_t>(k);
        if (!second && in_a) for (std::size_t p = 0; p < size; ++p) { auto [x, y] = impl::DeserializeArgs<std::uint32_t, std::uint8_t>(lola::GetInArgValuesElementStorage(p, *a0, im)); *x = p == pos ? v : 9999U; *y = std::uint8_t(p == pos ? k : 99); }
        if (second && in_b) for (std::size_t p = 0; p < size; ++p) { auto [x] = impl::DeserializeArgs<std::uint16_t>(lola::GetInArgValuesElementStorage(p, *a1, in)); *x = std::uint16_t(p == pos ? v : 9999U); }
        const auto before = log.size();
        MC_CHECK(s.bus.CallMethod(QualityType::kASIL_QM, lola::ProxyMethodInstanceIdentifier{id, {second ? std::uint16_t(5) : std::uint16_t(4), impl::MethodType::kMethod}}, pos, 1000).has_value(), "a call fails");
        MC_CHECK(log.size() == before + 1 && log.back().method == (second ? 'n' : 'm'), "the wrong handler runs, or not once");
        if (!second) { if (in_a) MC_CHECK(log.back().a == v && log.back().b == std::uint32_t(k), "the handler gets other arguments"); if (out_a) want[pos] = log.back().handler; }
        else if (in_b) MC_CHECK(log.back().a == v, "the handler gets another argument");
        if (out_a) for (std::size_t p = 0; p < size; ++p) MC_CHECK(get64(p) == want[p], "position " << p << " of the queue holds " << get64(p) << " instead of " << want[p]);
    }
    sk.reset(); s.bus.client_pid = 0;
}
MC_CASE(S01, positions)
{
    for (std::size_t size : {1U, 2U, 3U})
    {
        mc::explore("positions of a queue of " + std::to_string(size) + ": with arguments", mc::Config{0}, [size] { positions<CSkel>(size, true, true, true, false, [](CSkel& k, std::vector<Call>& log) {
            MC_CHECK(k.m.RegisterHandler([&log](std::uint32_t& r, const std::uint32_t& a, const std::uint8_t& b) { log.push_back({'m', int(log.size()) + 1, a, b}); r = std::uint32_t(log.size()); }).has_value() && k.n.RegisterHandler([&log](const std::uint16_t& a) { log.push_back({'n', 0, a, 0}); }).has_value(), "registering a handler fails"); }); });
        mc::explore("positions of a queue of " + std::to_string(size) + ": without arguments", mc::Config{0}, [size] { positions<PSkel>(size, false, true, false, false, [](PSkel& k, std::vector<Call>& log) {
            MC_CHECK(k.m.RegisterHandler([&log](std::uint64_t& r) { log.push_back({'m', int(log.size()) + 1, 0, 0}); r = log.size(); }).has_value() && k.n.RegisterHandler([&log] { log.push_back({'n', 0, 0, 0}); }).has_value(), "registering a handler fails"); }); });
    }
}

// ---- where arguments and results are put -----------------------------------------------------------------------------
struct alignas(16) Wide { unsigned char c[48]; };
struct Odd { unsigned char c[5]; };
template <class... T> void layout()
{
    alignas(64) std::byte mem[2048]; const auto info = impl::CreateDataTypeSizeInfoFromTypes<T...>();
    for (std::size_t queue = 1; queue <= 3; ++queue)
    {
        lola::TypeErasedCallQueue::TypeErasedElementInfo e{info, std::nullopt, queue};
        const std::size_t total = info.Size() * queue; MC_CHECK(total <= sizeof(mem) - 64, "harness");
        for (std::size_t base = 0; base < 64; base += info.Alignment())
        {
            std::map<std::uintptr_t, std::uintptr_t> used; const auto lo = reinterpret_cast<std::uintptr_t>(mem + base), hi = lo + total;
            auto put = [&](auto* p) {
                const auto a = reinterpret_cast<std::uintptr_t>(p); const auto z = a + sizeof(*p);
                MC_CHECK(a % alignof(decltype(*p)) == 0, "an argument is not aligned"); MC_CHECK(a >= lo && z <= hi, "an argument lies outside its queue");
                for (auto& u : used) MC_CHECK(z <= u.first || a >= u.second, "two arguments overlap");
                used[a] = z;
            };
            for (std::size_t pos = 0; pos < queue; ++pos)
            {
                auto st = lola::GetInArgValuesElementStorage(pos, score::cpp::span<std::byte>{mem + base, total}, e);
                std::apply([&](auto*... p) { (put(p), ...); }, impl::DeserializeArgs<T...>(st));
            }
        }
    }
}
MC_CASE(S01, layouts)
{
    mc::explore("places of arguments", mc::Config{0}, [] {
        using A = std::uint8_t; using B = std::uint32_t; using C = std::uint64_t; using D = Wide; using E = Odd;
        layout<A>(); layout<B>(); layout<C>(); layout<D>(); layout<E>();
        layout<A, B>(); layout<B, A>(); layout<A, C>(); layout<C, A>(); layout<A, D>(); layout<D, A>(); layout<E, B>(); layout<B, E>(); layout<E, D>(); layout<D, E>(); layout<C, B>(); layout<B, C>();
        layout<A, B, C>(); layout<A, C, B>(); layout<B, A, C>(); layout<B, C, A>(); layout<C, A, B>(); layout<C, B, A>();
        layout<A, D, A>(); layout<E, C, A>(); layout<A, E, D>(); layout<D, E, B>(); layout<B, D, E>(); layout<E, B, D>();
        layout<A, B, C, D>(); layout<D, C, B, A>(); layout<A, D, B, C>(); layout<E, A, D, B>(); layout<B, E, A, C>(); layout<A, A, A, C>(); layout<C, A, A, A>();
        mc::outcome("done");
    });
}
}  // namespace
