// G02: two gateways forward a service from the domain of its provider to the domain of its consumer.
#include "mc.h"
#include "stack.h"
#include "score/json/json_parser.h"
#include "score/mw/com/gateway/gateway_application/configuration/gateway_config_parser.h"
#include "score/mw/com/gateway/gateway_application/configuration/gateway_configuration.h"
#include "score/mw/com/gateway/gateway_application/gateway_application.h"
#include "score/mw/com/gateway/gateway_application/gateway_error.h"
#include "score/mw/com/gateway/transport_layer/transport.h"
namespace
{
using namespace stack;
namespace gw = score::mw::com::gateway;
using impl::ServiceElementType;
template <class T> struct Svc : T::Base
{
    using T::Base::Base;
    typename T::template Event<std::uint64_t> ev{*this, "ev"};
    typename T::template Event<std::uint32_t> ew{*this, "ew"};
};
using Skel = impl::SkeletonWrapperClass<Svc>;
using Prox = impl::ProxyWrapperClass<Svc>;
using Ptr = impl::SamplePtr<std::uint64_t>;
impl::InstanceSpecifier spec(const std::string& s) { return impl::InstanceSpecifier::Create(std::string{s}).value(); }
score::Result<void> lost() { return score::MakeUnexpected(impl::ComErrc::kCommunicationLinkError); }

// Two domains with a kernel that shares memory objects (not files), each with its own discovery and messaging.
struct World : Stack
{
    Bus bus1; Sd sd1; Deployment dep1; int domain{0};
    static Plan mine() { Plan p; p.slots = 4; p.subs = 3; p.cross_vm = true; return p; }
    static Plan theirs() { Plan p = mine(); p.forwarded = true; return p; }
    World() : Stack(mine()), dep1(theirs())
    {
        auto& r = rt.add(1, 2000, 43); r.messaging = &bus1;
        sd.resolve = sd1.resolve = [this](const impl::InstanceSpecifier& s) { return rt.resolve(s); };
        vshim::Vfs::get().mkdirs("/d1/tmp", 0777); vshim::Vfs::get().mkdirs("/dev/shm/intervm-shared-shmem", 0777);
        enter(0);
    }
    void enter(int d)
    {
        domain = d; rt.domain = d; rt.sd = d ? &sd1 : &sd; os.k.root = d ? "/d1" : "";
        rt.names["inst"] = {(d ? dep1 : dep).id(false)};
        rt.names["other"] = {};
    }
};
struct In { World& w; int back; In(World& x, int d) : w(x), back(x.domain) { w.enter(d); } ~In() { w.enter(back); } };

// Carries requests to the gateway of the other domain; a request can be lost, or its reply.
struct Link final : gw::Transport
{
    World& w; gw::GatewayCore*& peer; int to; std::vector<std::string>& log; int& fault;   // 0 none, 1 next request lost, 2 next reply lost
    bool down{false};
    Link(World& x, gw::GatewayCore*& p, int t, std::vector<std::string>& l, int& f) : w(x), peer(p), to(t), log(l), fault(f) {}
    template <class F> score::Result<void> carry(const std::string& what, F&& f)
    {
        log.push_back(std::to_string(to) + "<" + what);
        MC_CHECK(!down, "a request is sent over a transport that was shut down");
        if (peer == nullptr) return lost();
        const int mode = fault; fault = 0;
        if (mode == 1) { log.back() += " lost"; return lost(); }
        In d(w, to); auto r = f(*peer);
        if (!r.has_value()) log.push_back(what + " refused");
        return mode == 2 ? lost() : r;
    }
    bool IsMemorySharingSupported() const override { return true; }
    score::Result<void> Setup() override { return {}; }
    void Shutdown() override { down = true; }
    score::Result<void> ProvideService(impl::InstanceSpecifier s, std::vector<score::mw::com::EventInfo> e) override
    {
        std::vector<std::string> names; for (auto& x : e) names.emplace_back(x.name);
        for (std::size_t i = 0; i < e.size(); ++i) e[i].name = names[i];
        return carry("provide", [&](auto& p) { return p.ProvideService(s, e); });
    }
    score::Result<void> OfferService(impl::InstanceSpecifier s) override { return carry("offer", [&](auto& p) { return p.OfferService(s); }); }
    score::Result<void> StopOfferService(impl::InstanceSpecifier s) override { return carry("stop", [&](auto& p) { p.StopOfferService(s); return score::Result<void>{}; }); }
    score::Result<void> NotifyUpdate(impl::InstanceSpecifier s, ServiceElementType t, std::string n) override { return carry("notify " + n, [&](auto& p) { return p.NotifyUpdate(s, t, n); }); }
    score::Result<void> RegisterUpdateNotification(impl::InstanceSpecifier s, ServiceElementType t, std::string n) override { return carry("register " + n, [&](auto& p) { return p.RegisterUpdateNotification(s, t, n); }); }
    score::Result<void> UnregisterUpdateNotification(impl::InstanceSpecifier s, ServiceElementType t, std::string n) override { return carry("unregister " + n, [&](auto& p) { return p.UnregisterUpdateNotification(s, t, n); }); }
};

struct Pair : World
{
    std::vector<std::string> log; int fault{0}; std::vector<std::string> forward;
    gw::GatewayCore *pa{nullptr}, *pb{nullptr};
    std::unique_ptr<gw::GatewayApplication> a, b;
    explicit Pair(std::vector<std::string> forwarded = {"inst"}, std::vector<std::string> accepted = {"inst"}) : forward(forwarded)
    {
        { In d(*this, 1); b = std::make_unique<gw::GatewayApplication>(gw::GatewayConfiguration{{}, accepted, "t", "p"}, std::make_unique<Link>(*this, pa, 0, log, fault)); pb = b.get(); MC_CHECK(b->Setup().has_value() && b->Start().has_value(), "the gateway does not start"); }
        restart_a();
    }
    bool there() { return !sd1.offered.empty(); }
    int count(const std::string& what) { int n = 0; for (auto& l : log) if (l == what) ++n; return n; }
    void restart_a()
    {
        drop_a();
        a = std::make_unique<gw::GatewayApplication>(gw::GatewayConfiguration{forward, {}, "t", "p"}, std::make_unique<Link>(*this, pb, 1, log, fault)); pa = a.get();
        MC_CHECK(a->Setup().has_value() && a->Start().has_value(), "the gateway does not start");
    }
    void drop_a() { pa = nullptr; In d(*this, 0); a.reset(); }
    void drop_b() { pb = nullptr; In d(*this, 1); b.reset(); }
    ~Pair() { drop_a(); drop_b(); }
};

// What the provider, the consumer and the transport can do.
struct GwSys final : mc::System
{
    Pair g; std::unique_ptr<Skel> sk; std::unique_ptr<Prox> px;
    bool offered{false}, shown{false};           // shown: the other domain offers it
    bool sub{false}, handler{false}, linked{false}, known{false};   // known: the first gateway regards it as forwarded
    int calls{0}; std::uint64_t sent{0}, last{0}; int faults; int restarts; bool gone{false}, ever{false};
    enum Op { Offer, Stop, Renew, Send, SendOther, Find, Sub, Unsub, SetH, UnsetH, Fetch, Drop, Restart, LoseProvide, LoseProvideReply, LoseStop, LoseRegister, LoseNotify, LoseUnregister, kOps };
    static std::string name(int o)
    {
        static const char* n[] = {"offer", "stop offer", "new provider object", "send", "send the other event", "create consumer", "subscribe", "unsubscribe", "set handler", "unset handler", "fetch", "destroy consumer", "restart the first gateway",
            "offer, request lost", "offer, reply lost", "stop offer, request lost", "set handler, request lost", "send, request lost", "unset handler, request lost"};
        return n[o];
    }
    explicit GwSys(int f, int r = 1) : faults(f), restarts(r) { sk = std::make_unique<Skel>(std::move(Skel::Create(g.dep.id(false)).value())); }
    ~GwSys() override { { In d(g, 1); px.reset(); } sk.reset(); }
    void show_check(const char* when) { MC_CHECK(g.there() == shown, when << ": the other domain " << (shown ? "does not offer the service" : "offers a service that is gone")); }
    bool offer(int fault)
    {
        if (offered) return false;
        if (gone || (fault && px)) return false;   // the consumer would keep memory of a provider nobody else keeps
        g.fault = fault;
        MC_CHECK(sk->OfferService().has_value(), "offer refused");
        MC_CHECK(fault == 0 || g.fault == 0, "no request was sent although a service appeared");
        offered = true;
        known = fault == 0;
        if (fault == 0) { shown = true; linked = sub && handler; }
        else if (fault == 2) shown = true;
        return true;
    }
    bool stop(bool fault)
    {
        if (!offered) return false;
        g.fault = fault ? 1 : 0; const bool asks = g.log.size(); (void)asks;
        sk->StopOfferService(); offered = false; gone = gone || (!known && ever);   // then memory of both domains would meet in this process
        if (!fault || g.fault) shown = shown && fault && !g.fault;
        g.fault = 0;
        return true;
    }
    bool send(bool fault)
    {
        if (!offered) return false;
        const bool expect = shown && sub && handler && linked;
        if (fault && !expect) return false;
        g.log.clear(); calls = 0; g.fault = fault ? 1 : 0;
        auto r = sk->ev.Send(++sent);
        MC_CHECK(r.has_value(), "send refused");
        MC_CHECK(calls == (expect && !fault ? 1 : 0) || (!linked && calls <= 1), "an update is notified " << calls << " times, expected " << (expect && !fault));
        MC_CHECK(g.count("1<notify ev") <= 1 && g.count("1<notify ew") == 0, "one update is forwarded more than once");
        g.fault = 0;
        return true;
    }
    bool apply(int o) override
    {
        g.log.clear();
        if (o >= LoseProvide) { if (faults == 0) return false; --faults; }
        switch (o)
        {
            case Offer: if (!offer(0)) return false; break;
            case LoseProvide: if (!offer(1)) return false; break;
            case LoseProvideReply: if (!offer(2)) return false; break;
            case Stop: if (!stop(false)) return false; break;
            case LoseStop: if (!stop(true)) return false; break;
            case Renew: if (offered) return false; sk.reset(); sk = std::make_unique<Skel>(std::move(Skel::Create(g.dep.id(false)).value())); break;
            case Send: if (!send(false)) return false; break;
            case LoseNotify: if (!send(true)) return false; break;
            case SendOther: if (!offered) return false; calls = 0; MC_CHECK(sk->ew.Send(7).has_value(), "send refused"); MC_CHECK(calls == 0 && g.count("1<notify ev") == 0, "an update is notified to another event"); break;
            case Find:
            {
                if (px || !shown || !offered) return false;
                In d(g, 1); auto r = Prox::Create(impl::make_HandleType(g.dep1.id(false)));
                MC_CHECK(r.has_value(), "the forwarded service cannot be used"); if (!r.has_value()) return false;
                px = std::make_unique<Prox>(std::move(r).value()); break;
            }
            case Sub: { if (!px || sub || !shown || !offered) return false; In d(g, 1); MC_CHECK(px->ev.Subscribe(1).has_value(), "subscription refused"); sub = true; last = 0; break; }
            case Unsub: { if (!px || !sub) return false; In d(g, 1); px->ev.Unsubscribe(); sub = false; handler = false; linked = false; break; }
            case SetH: case LoseRegister:
            {
                if (!px || !sub || handler || !shown) return false;
                In d(g, 1); g.fault = o == LoseRegister ? 1 : 0;
                MC_CHECK(px->ev.SetReceiveHandler([this]() noexcept { ++calls; }).has_value(), "handler refused");
                handler = true; linked = o == SetH && known; if (o == LoseRegister && g.fault) { g.fault = 0; return false; }
                break;
            }
            case UnsetH: case LoseUnregister:
            {
                if (!handler) return false;
                In d(g, 1); g.fault = o == LoseUnregister ? 1 : 0;
                MC_CHECK(px->ev.UnsetReceiveHandler().has_value(), "unset refused"); handler = false; linked = false; if (g.fault) { g.fault = 0; return false; }
                break;
            }
            case Fetch:
            {
                if (!sub || !shown) return false;
                In d(g, 1); std::vector<std::uint64_t> got;
                auto r = px->ev.GetNewSamples([&](Ptr p) noexcept { got.push_back(*p); }, 1);
                MC_CHECK(r.has_value(), "fetch refused"); if (!r.has_value()) break;
                if (sent > last) MC_CHECK(got.size() == 1 && got[0] == sent, "the consumer of the other domain does not get the newest sample");
                else MC_CHECK(got.empty(), "a sample is delivered twice");
                if (!got.empty()) last = got.back();
                break;
            }
            case Restart: { if (!offered || restarts-- == 0) return false; g.restart_a(); known = shown = true; linked = sub && handler; break; }
            case Drop: { if (!px) return false; In d(g, 1); px.reset(); sub = handler = linked = false; break; }
        }
        ever = ever || shown; for (auto& l : g.log) mc::log(l);
        show_check(name(o).c_str());
        return true;
    }
    std::string canon() override
    {
        // which shared memory there is decides what a later consumer finds
        std::string r = std::string{offered ? "O" : "-"} + (shown ? "S" : "-") + (sub ? "s" : "-") + (handler ? "h" : "-") + (linked ? "l" : "-") + (px ? "p" : "-") + std::to_string(faults) + std::to_string(restarts) + (gone ? "g" : "") + (ever ? "e" : "") +  "/" + std::to_string(int(sent > last)) + (sent ? "d" : "-");
        r += "|" + std::to_string(g.bus.regs.size()) + std::to_string(g.bus1.regs.size()) + std::to_string(g.sd.searches.size()) + "/" + std::to_string(g.sd1.searches.size());
        r += "|" + std::to_string(g.bus.existence.size()) + std::to_string(g.bus1.existence.size());
        for (auto& n : g.os.k.names) r += n.first.substr(0, 4) + std::to_string(n.first.size());
        for (auto& f : g.os.k.fds) r += std::to_string(f.second.lock);
        return r;
    }
    void finish() override
    {
        g.log.clear();
        { In d(g, 1); px.reset(); sub = handler = false; }
        g.drop_b();
        MC_CHECK(!g.there(), "the gateway leaves services offered behind");
        if (offered) { MC_CHECK(sk->ev.Send(1).has_value(), "send refused after the other gateway went"); sk->StopOfferService(); }
        g.drop_a();
        sk->OfferService(); sk->StopOfferService(); sk.reset();
        for (auto& n : g.os.k.names) MC_CHECK(n.first[0] != 'S', "shared memory left behind: " << n.first);
    }
};

// Which services are forwarded and accepted decides what is offered: every list of up to three names, on both sides.
void whitelists()
{
    mc::Config cfg; cfg.preemptions = 0;
    mc::explore("configured services", cfg, [] {
        static const char* names[] = {"inst", "other", "in st?", "inst2"};
        auto list = [&](const char* what) { std::vector<std::string> v; int n = mc::choose(4, what); for (int k = 0; k < n; ++k) v.emplace_back(names[mc::choose(4, what)]); return v; };
        const auto f = list("forwarded"), a = list("accepted");
        auto has = [](const std::vector<std::string>& v) { for (auto& x : v) if (x == "inst") return true; return false; };
        int n = 0; for (auto& x : f) n += x == "inst";
        if (n > 1) return;   // two searches for one service
        Pair g(f, a); auto sk = std::make_unique<Skel>(std::move(Skel::Create(g.dep.id(false)).value()));
        MC_CHECK(sk->OfferService().has_value(), "offer refused");
        MC_CHECK(g.there() == (has(f) && has(a)), "forwarded: " << has(f) << " accepted: " << has(a) << " offered: " << g.there());
        MC_CHECK(g.count("1<provide") == int(has(f)), "a service is propagated " << g.count("1<provide") << " times");
        sk->StopOfferService();
        MC_CHECK(!g.there(), "the service is still offered");
        sk.reset();
    });
}

// The requests of a remote gateway, in every order and with content that does not fit.
struct CoreSys final : mc::System
{
    Pair g{{}, {"inst", "gone"}}; bool made{false}, offered{false}; int elements{0};
    std::unique_ptr<Skel> sk; std::unique_ptr<Prox> px; int calls{0}; bool handler{false};
    enum Op { Provide1, Provide2, ProvideNone, ProvideUnknown, ProvideTwice, ProvideOdd, ProvideAlien, ProvideUnresolved, StopIt, StopAlien, OfferIt, OfferAlien, NotifyEv, NotifyEw, NotifyNone, NotifyAlien, RegAlien, UnregAlien, Consumer, Bye, kOps };
    static std::string name(int o)
    {
        static const char* n[] = {"provide one event", "provide two events", "provide no event", "provide an unknown event", "provide an event twice", "provide an event with impossible size", "provide a service not accepted", "provide a service not deployed",
            "stop", "stop another service", "offer", "offer another service", "notify ev", "notify ew", "notify unknown event", "notify unknown service", "register at unknown service", "unregister at unknown service", "consumer with handler", "consumer goes"};
        return n[o];
    }
    CoreSys() { sk = std::make_unique<Skel>(std::move(Skel::Create(g.dep.id(false)).value())); MC_CHECK(sk->OfferService().has_value(), "offer refused"); }
    ~CoreSys() override { { In d(g, 1); px.reset(); } sk.reset(); }
    static score::mw::com::EventInfo ev(const char* n, std::size_t size, std::size_t align) { return {n, impl::DataTypeMetaInfo{size, align}}; }
    template <class E> void is(const score::Result<void>& r, E e, const char* what) { MC_CHECK(!r.has_value() && r.error() == e, what << (r.has_value() ? " is accepted" : " is refused with another error")); }
    void provide(std::vector<score::mw::com::EventInfo> e, bool fits, int n)
    {
        auto r = g.b->ProvideService(spec("inst"), e);
        if (made || fits) { MC_CHECK(r.has_value(), "a service that fits is refused"); if (!made) elements = n; made = offered = true; }
        else is(r, gw::GatewayErrorc::kSkeletonCreationFailed, "a service that does not fit");
    }
    void notify(const char* e, bool there)
    {
        calls = 0; auto r = g.b->NotifyUpdate(spec("inst"), ServiceElementType::EVENT, e);
        if (!made) is(r, gw::GatewayErrorc::kUnknownServiceInstance, "an update of an unknown service");
        else if (!there) is(r, gw::GatewayErrorc::kUnknownServiceElement, "an update of an unknown event");
        else if (!offered) is(r, gw::GatewayErrorc::kNotificationFailed, "an update of a service not offered");
        else MC_CHECK(r.has_value(), "an update is refused");
        MC_CHECK(calls == int(made && there && offered && handler && std::string(e) == "ev"), "an update reaches the consumer " << calls << " times");
    }
    bool apply(int o) override
    {
        In d(g, 1); g.log.clear(); bool ok = true;
        switch (o)
        {
            case Provide1: provide({ev("ev", 8, 8)}, true, 1); break;
            case Provide2: provide({ev("ev", 8, 8), ev("ew", 4, 2)}, true, 2); break;
            case ProvideNone: provide({}, true, 0); break;
            case ProvideUnknown: provide({ev("ev", 8, 8), ev("ex", 4, 4)}, false, 0); break;
            case ProvideTwice: provide({ev("ev", 8, 8), ev("ev", 8, 8)}, false, 0); break;
            case ProvideOdd: { static const std::size_t odd[3][2] = {{8, 0}, {12, 8}, {6, 3}}; for (auto& x : odd) provide({ev("ev", x[0], x[1])}, false, 1); break; }
            case ProvideAlien: is(g.b->ProvideService(spec("alien"), {ev("ev", 8, 8)}), gw::GatewayErrorc::kNonWhitelistedService, "a service not accepted"); break;
            case ProvideUnresolved: is(g.b->ProvideService(spec("gone"), {ev("ev", 8, 8)}), gw::GatewayErrorc::kSkeletonCreationFailed, "a service not deployed"); break;
            case StopIt: g.b->StopOfferService(spec("inst")); offered = false; break;
            case StopAlien: g.b->StopOfferService(spec("alien")); break;
            case OfferIt: if (offered) return false; { auto r = g.b->OfferService(spec("inst")); if (made) { MC_CHECK(r.has_value(), "offer refused"); offered = true; } else is(r, gw::GatewayErrorc::kSkeletonOfferFailed, "an offer of an unknown service"); } break;
            case OfferAlien: is(g.b->OfferService(spec("alien")), gw::GatewayErrorc::kSkeletonOfferFailed, "an offer of an unknown service"); break;
            case NotifyEv: notify("ev", elements >= 1); break;
            case NotifyEw: notify("ew", elements >= 2); break;
            case NotifyNone: notify("ex", false); break;
            case NotifyAlien: is(g.b->NotifyUpdate(spec("alien"), ServiceElementType::EVENT, "ev"), gw::GatewayErrorc::kUnknownServiceInstance, "an update of an unknown service"); break;
            case RegAlien: is(g.b->RegisterUpdateNotification(spec("inst"), ServiceElementType::EVENT, "ev"), gw::GatewayErrorc::kUnknownServiceInstance, "a registration at an unknown service"); break;
            case UnregAlien: is(g.b->UnregisterUpdateNotification(spec("inst"), ServiceElementType::EVENT, "ev"), gw::GatewayErrorc::kUnknownServiceInstance, "a registration at an unknown service"); break;
            case Consumer:
            {
                if (px || !offered || elements == 0) return false;
                auto r = Prox::Create(impl::make_HandleType(g.dep1.id(false))); MC_CHECK(r.has_value(), "the forwarded service cannot be used"); if (!r.has_value()) return false;
                px = std::make_unique<Prox>(std::move(r).value());
                MC_CHECK(px->ev.Subscribe(1).has_value() && px->ev.SetReceiveHandler([this]() noexcept { ++calls; }).has_value(), "subscription refused"); handler = true; break;
            }
            case Bye: if (!px) return false; px.reset(); handler = false; break;
        }
        MC_CHECK(g.there() == offered, name(o) << ": the service is " << (g.there() ? "" : "not ") << "offered");
        return ok;
    }
    std::string canon() override { return std::string{made ? "m" : "-"} + (offered ? "o" : "-") + std::to_string(elements) + (px ? "p" : "-") + std::to_string(g.bus1.regs.size()) + std::to_string(g.bus1.existence.size()) + std::to_string(g.sd1.searches.size()); }
    void finish() override { { In d(g, 1); px.reset(); handler = false; } g.drop_b(); MC_CHECK(!g.there(), "the gateway leaves services offered behind"); }
};

// The configuration and the documents it is read from.
using Names = std::vector<std::string>;
std::string q(const std::string& s) { return "\"" + s + "\""; }
std::string jlist(const Names& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : ",") + q(x); return "[" + r + "]"; }
void same(const gw::GatewayConfiguration& c, const Names& f, const Names& r, const std::string& id, const std::string& path)
{
    for (int again = 0; again < 2; ++again)
    {
        MC_CHECK(c.GetForwardedServices() == f, "the forwarded services are not those configured");
        MC_CHECK(c.GetReceivedServices() == r, "the expected services are not those configured");
        MC_CHECK(c.GetTransportLayerId() == id, "the transport is '" << c.GetTransportLayerId() << "', configured '" << id << "'");
        MC_CHECK(c.GetTransportConfigPath() == path, "the path is '" << c.GetTransportConfigPath() << "', configured '" << path << "'");
    }
}
Names some(const char* what)
{
    static const char* w[] = {"a/b", "a/c", "", "/long/name/that/does/not/fit/into/a/short/string"};
    Names v; int n = mc::choose(4, what); for (int k = 0; k < n; ++k) v.emplace_back(w[mc::choose(4, what)]); return v;
}
void configuration()
{
    mc::Config cfg; cfg.preemptions = 0;
    mc::explore("configuration values", cfg, [] {
        static const char* ids[] = {"", "x", "sample_hypervisor"}; static const char* ps[] = {"", "/p/q", "x"};
        const Names f = some("forwarded"), r = some("expected"); const std::string id = ids[mc::choose(3, "id")], p = ps[mc::choose(3, "path")];
        gw::GatewayConfiguration c{f, r, id, p}; same(c, f, r, id, p);
        auto d = c; same(d, f, r, id, p); same(c, f, r, id, p);
        auto e = std::move(d); same(e, f, r, id, p);
        c = gw::GatewayConfiguration{r, f, p, id}; same(c, r, f, p, id); same(e, f, r, id, p);
    });
    mc::explore("configuration documents", cfg, [] {
        const bool hf = mc::choose(2, "has forwarded"), hr = mc::choose(2, "has expected"); const int ht = mc::choose(5, "transport");
        const Names f = hf ? some("forwarded") : Names{}, r = hr ? some("expected") : Names{};
        std::vector<std::string> kv;
        if (hf) kv.push_back(q("forwarded-services") + ":" + jlist(f));
        if (hr) kv.push_back(q("expected-received-services") + ":" + jlist(r));
        std::string id = ht == 1 || ht == 2 ? "tid" : "", p = ht == 1 || ht == 3 ? "/cfg" : "";
        if (ht) kv.push_back(q("transport-layer") + ":{" + (id.empty() ? "" : q("id") + ":" + q(id)) + (id.empty() || p.empty() ? "" : ",") + (p.empty() ? "" : q("config-path") + ":" + q(p)) + "}");
        kv.push_back(q("id") + ":" + q("outer")); kv.push_back(q("config-path") + ":" + q("outer"));
        if (mc::choose(2, "order")) std::reverse(kv.begin(), kv.end());
        std::string doc; for (auto& x : kv) doc += (doc.empty() ? "" : ",") + x;
        auto any = score::json::JsonParser{}.FromBuffer("{" + doc + "}"); if (!any.has_value()) { mc::violation("HARNESS: not JSON"); return; }
        same(gw::ParseGatewayConfig(std::move(any).value()), f, r, id, p);
    });
    mc::explore("configuration documents that do not fit", cfg, [] {
        static const char* bad[] = {"[]", "7", "\"x\"", "null", R"({"forwarded-services":7})", R"({"forwarded-services":{}})", R"({"forwarded-services":[7]})", R"({"forwarded-services":["a",null]})", R"({"expected-received-services":"a"})",
            R"({"expected-received-services":[{}]})", R"({"transport-layer":{"id":7}})", R"({"transport-layer":{"config-path":["a"]}})"};
        const std::string t = bad[mc::choose(12, "document")];
        MC_CHECK(mc::dies([&] { auto any = score::json::JsonParser{}.FromBuffer(t); (void)gw::ParseGatewayConfig(std::move(any).value()); }), "accepted: " << t);
    });
}
}  // namespace

MC_CASE(G02, configuration) { configuration(); }
MC_CASE(G02, whitelists) { whitelists(); }
MC_CASE(G02, requests)
{
    mc::bfs("requests of a remote gateway", mc::BfsConfig{mc::tier(6, 12)}, CoreSys::kOps, CoreSys::name, [] { return std::unique_ptr<mc::System>(new CoreSys); });
}
MC_CASE(G02, forwarding)
{
    mc::bfs("forwarding", mc::BfsConfig{mc::tier(9, 14)}, GwSys::kOps, GwSys::name, [] { return std::unique_ptr<mc::System>(new GwSys(0)); });
    mc::bfs("forwarding with lost requests", mc::BfsConfig{mc::tier(7, 10)}, GwSys::kOps, GwSys::name, [] { return std::unique_ptr<mc::System>(new GwSys(2)); });
}
