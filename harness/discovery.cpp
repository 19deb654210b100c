// D01/D02: the real service discovery (registry of searches, flag files, directory watches) over an in-memory file system
// with directory notifications; providers and consumers are separate processes, the worker is a thread of the engine.
#include "fake_runtime.h"
#include "score/concurrency/executor.h"
#include "score/filesystem/filesystem.h"
#include "score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.h"
#include "score/mw/com/impl/service_discovery.h"
#include "score/os/unistd.h"

namespace
{
namespace impl = score::mw::com::impl;
namespace lola = score::mw::com::impl::lola;
using impl::QualityType;
using vshim::Vfs;

int g_acting = 0;     // whose process calls (0: the process of the fiber)
struct Pid final : score::os::Unistd
{
    pid_t getpid() const noexcept override { return 1000 + (g_acting ? g_acting : 100 * mc::cur_proc()); }
};
struct Act { int old; explicit Act(int a) : old(g_acting) { g_acting = a; } ~Act() { g_acting = old; } };

struct Exec final : score::concurrency::Executor
{
    std::size_t MaxConcurrencyLevel() const noexcept override { return 1; }
    bool ShutdownRequested() const noexcept override { return false; }
    void Shutdown() noexcept override {}
    void Enqueue(score::cpp::pmr::unique_ptr<score::concurrency::Task> t) override
    {
        auto s = std::make_shared<score::cpp::pmr::unique_ptr<score::concurrency::Task>>(std::move(t));
        mc::spawn([s] { (**s)(score::cpp::stop_token{}); }, "worker");
    }
};

// (service, instance or 0 for any, quality)
struct Spec { int s, i; QualityType q; };
struct Names
{
    std::map<int, std::unique_ptr<impl::ServiceTypeDeployment>> types;
    std::map<std::string, std::unique_ptr<impl::ServiceInstanceDeployment>> insts;
    impl::InstanceIdentifier id(const Spec& x)
    {
        auto& t = types[x.s];
        if (!t) t = std::make_unique<impl::ServiceTypeDeployment>(impl::LolaServiceTypeDeployment{static_cast<std::uint16_t>(x.s)});
        auto& d = insts[std::to_string(x.s) + "/" + std::to_string(x.i) + "/" + std::to_string(int(x.q))];
        if (!d)
        {
            impl::LolaServiceInstanceDeployment l; if (x.i) l.instance_id_ = impl::LolaServiceInstanceId{static_cast<std::uint16_t>(x.i)};
            const auto name = impl::make_ServiceIdentifierType("svc" + std::to_string(x.s));
            d = std::make_unique<impl::ServiceInstanceDeployment>(name, l, x.q, impl::InstanceSpecifier::Create("i" + std::to_string(x.s) + "_" + std::to_string(x.i) + "_" + std::to_string(int(x.q))).value());
        }
        return impl::make_InstanceIdentifier(*d, *t);
    }
};
using Set = std::set<int>;
std::string str(const Set& s) { std::string r = "{"; for (int i : s) r += (r.size() > 1 ? "," : "") + std::to_string(i); return r + "}"; }
std::string str(const Spec& x) { return "service " + std::to_string(x.s) + (x.i ? " instance " + std::to_string(x.i) : std::string(" any instance")) + (x.q == QualityType::kASIL_B ? " at ASIL-B" : " at QM"); }

struct Client
{
    Exec exec; score::os::VInotify* ino; std::unique_ptr<lola::ServiceDiscoveryClient> c;
    Client()
    {
        auto i = std::make_unique<score::os::VInotify>(); ino = i.get();
        ino->exists = [](const std::string& p) { return Vfs::get().isdir(p); };
        c = std::make_unique<lola::ServiceDiscoveryClient>(exec, std::move(i), score::os::Unistd::Default(), score::filesystem::FilesystemFactory{}.CreateInstance());
    }
    bool idle() const { return ino->q.empty() && ino->waiting; }
};

// What is offered, and what a search has to know about it.
struct Truth
{
    std::map<std::pair<int, int>, std::pair<bool, bool>> up;   // (service, instance) -> visible at ASIL-B, at QM
    bool at(int s, int i, QualityType q) const { auto k = up.find({s, i}); return k != up.end() && (q == QualityType::kASIL_B ? k->second.first : k->second.second); }
    Set of(const Spec& x) const { Set r; for (auto& u : up) if (u.first.first == x.s && (!x.i || u.first.second == x.i) && at(x.s, u.first.second, x.q)) r.insert(u.first.second); return r; }
};

struct Search
{
    Spec spec; std::size_t uid{0}; bool live{true}; Set last; int running{0}; int calls{0};
    bool stop_returned{false};
};

struct Bed
{
    Pid pid; Names names; fake::Runtime rt; std::unique_ptr<Client> consumer; std::unique_ptr<impl::ServiceDiscovery> sd; Truth truth;
    std::vector<std::shared_ptr<Search>> searches;
    std::set<std::size_t> uids;
    bool direct{false}; std::size_t own{0};   // use the binding's discovery without the one above it
    std::shared_ptr<int> tokens{std::make_shared<int>(0)};   // one reference per handler that is kept
    Truth recent;   // visible at some time since everything was delivered last
    explicit Bed(bool d = false) : direct(d)
    {
        g_acting = 0;
        Vfs::get().clear(); Vfs::get().mkdirs("/tmp", 0777);
        score::os::InotifyBus::get().inst.clear(); score::os::InotifyBus::get().section = nullptr;
        score::os::Unistd::set_testing_instance(pid);
        consumer = std::make_unique<Client>();
        auto& r = rt.add(0, 1000, 42); r.discovery = consumer->c.get();
        sd = std::make_unique<impl::ServiceDiscovery>(rt); rt.sd = sd.get();
    }
    ~Bed() { sd.reset(); consumer.reset(); score::os::Unistd::restore_instance(); Vfs::get().clear(); }

    Set decode(const Spec& x, const std::vector<impl::HandleType>& hs)
    {
        Set r;
        for (auto& h : hs)
        {
            MC_CHECK(h.GetInstanceIdentifier() == names.id(x), "a handle found for " << str(x) << " refers to another service or deployment");
            const auto iid = h.GetInstanceId();
            auto* l = std::get_if<impl::LolaServiceInstanceId>(&iid.binding_info_);
            if (!l) { mc::violation("a handle without an instance identifier"); continue; }
            MC_CHECK(r.insert(l->GetId()).second, "instance " << l->GetId() << " is found twice for " << str(x));
        }
        return r;
    }
    void visible_again() { for (auto& u : truth.up) { auto& r = recent.up[u.first]; r.first |= u.second.first; r.second |= u.second.second; } }
    // a call of a handler
    void report(Search& s, const std::vector<impl::HandleType>& hs, impl::FindServiceHandle h)
    {
        mc::ghost(&truth);
        MC_CHECK(!s.stop_returned, "the handler of a search for " << str(s.spec) << " is called after the search was stopped");
        MC_CHECK(s.running == 0, "two calls of the handler of one search overlap");
        if (s.uid == 0) s.uid = impl::FindServiceHandleView{h}.getUid() + 1;
        MC_CHECK(s.uid == impl::FindServiceHandleView{h}.getUid() + 1, "a handler is called with the handle of another search");
        Set now = decode(s.spec, hs);
        mc::log("search for " + str(s.spec) + " reports " + str(now));
        MC_CHECK(now != s.last, "the handler of a search for " << str(s.spec) << " is called although nothing changed");
        for (int i : now) MC_CHECK(recent.at(s.spec.s, i, s.spec.q), "a search for " << str(s.spec) << " reports instance " << i << ", which was not offered");
        s.last = now; ++s.calls;
    }
    // one handler at a time, over several scheduling points
    score::Result<impl::FindServiceHandle> start(std::shared_ptr<Search> s, std::function<void(Search&)> inside = nullptr, bool by_name = false)
    {
        searches.push_back(s);
        auto handler = [this, s, inside, t = tokens](auto hs, auto h) { report(*s, hs, h); ++s->running; if (inside) inside(*s); else mc::point("in handler"); mc::ghost(&truth); --s->running; };
        auto by_client = [&]() -> score::Result<impl::FindServiceHandle> {
            const auto h = impl::make_FindServiceHandle(own++);
            auto e = consumer->c->StartFindService(h, std::move(handler), impl::EnrichedInstanceIdentifier{names.id(s->spec)});
            if (!e.has_value()) return score::Unexpected{e.error()};
            return h;
        };
        auto r = direct ? by_client() : by_name ? sd->StartFindService(std::move(handler), spec(s->spec)) : sd->StartFindService(std::move(handler), names.id(s->spec));
        mc::ghost(&truth);
        if (r.has_value())
        {
            const auto u = impl::FindServiceHandleView{*r}.getUid() + 1;
            MC_CHECK(s->uid == 0 || s->uid == u, "a handler was called with another handle than the one returned"); s->uid = u;
            MC_CHECK(uids.insert(u).second, "two searches have the same handle");
        }
        return r;
    }
    void stop(Search& s, bool inside = false)
    {
        auto r = direct ? consumer->c->StopFindService(impl::make_FindServiceHandle(s.uid - 1)) : sd->StopFindService(impl::make_FindServiceHandle(s.uid - 1));
        mc::ghost(&truth);
        MC_CHECK(r.has_value(), "stopping a search fails");
        if (!inside) MC_CHECK(s.running == 0, "stopping a search returned while its handler is running");
        s.live = false; s.stop_returned = true;
    }
    void drain()
    {
        mc::block_until([this] { return consumer->idle(); }, "worker");
        mc::ghost(&truth);
        for (auto& s : searches)
        {
            if (s->live) MC_CHECK(s->last == truth.of(s->spec), "a search for " << str(s->spec) << " reported " << str(s->last) << ", but " << str(truth.of(s->spec)) << " is offered");
        }
        recent = truth;
    }
    void one_shot(const Spec& x)
    {
        auto r = sd->FindService(names.id(x));
        if (!r.has_value()) { mc::violation("a one-shot search fails"); return; }
        Set f = decode(x, {r->begin(), r->end()});
        MC_CHECK(f == truth.of(x), "a one-shot search for " << str(x) << " finds " << str(f) << ", but " << str(truth.of(x)) << " is offered");
        auto r2 = sd->FindService(spec(x));
        if (!r2.has_value()) { mc::violation("a one-shot search by instance specifier fails"); return; }
        MC_CHECK(decode(x, {r2->begin(), r2->end()}) == f, "a one-shot search for " << str(x) << " finds something else by instance specifier");
    }
    impl::InstanceSpecifier spec(const Spec& x)
    {
        const auto n = "p" + std::to_string(x.s) + "_" + std::to_string(x.i) + "_" + std::to_string(int(x.q));
        auto s = impl::InstanceSpecifier::Create(std::string{n}).value();
        rt.names[std::string{s.ToString()}] = {names.id(x)};
        return s;
    }
    // directories watched for the searches of a process
    static std::multiset<std::string> watched(const Client& c) { std::multiset<std::string> r; for (auto& w : c.ino->w) r.insert(w.second); return r; }
    // A stopped search leaves nothing behind once later changes were delivered.
    void leftovers(const Spec& x)
    {
        for (auto& s : searches) if (s->live) stop(*s);
        auto s = std::make_shared<Search>(); s->spec = x;
        MC_CHECK(start(s).has_value(), "a search cannot be started");
        Act a(90);
        Client other, same;
        const Spec y{x.s, 9, QualityType::kASIL_QM};
        MC_CHECK(other.c->OfferService(names.id(y)).has_value(), "a service that is not offered cannot be offered");
        truth.up[{y.s, y.i}] = {false, true}; visible_again();
        drain();
        MC_CHECK(other.c->StopOfferService(names.id(y), impl::IServiceDiscovery::QualityTypeSelector::kBoth).has_value(), "an offered service cannot be withdrawn");
        truth.up.erase({y.s, y.i});
        drain();
        (void)same.c->StartFindService(impl::make_FindServiceHandle(1), [](auto, auto) {}, impl::EnrichedInstanceIdentifier{names.id(x)});
        auto have = watched(*consumer), want = watched(same);
        for (auto& w : have) MC_CHECK(want.count(w) >= have.count(w), "directory " << w << " is still watched although no search needs it");
        MC_CHECK(have == want, "a directory a search needs is not watched");
        MC_CHECK(tokens.use_count() == 2, (tokens.use_count() - 2) << " handlers of stopped searches are still kept");
        stop(*s);
    }
    // the file system as others see it
    static std::string files()
    {
        std::string r;
        for (auto& n : Vfs::get().nodes) { auto a = n.first.find('_', n.first.rfind('/')); auto b = n.first.rfind('_'); r += (n.second.dir ? n.first : n.first.substr(0, n.first.rfind('/') + 1) + (a < b ? n.first.substr(a, b - a) : "")) + ";"; }
        return r;
    }
};

// A provider process of one service instance.
struct Provider
{
    Spec spec; int pid; std::unique_ptr<Client> c; bool offered{false}, qm{false}, stale{false};
    Provider(Spec s, int p) : spec(s), pid(p) {}
};
void drop(std::unique_ptr<Client>& c)   // the process ends without withdrawing anything
{
    if (!c) return;
    auto keep = Vfs::get().nodes; auto bus = std::move(score::os::InotifyBus::get().inst); score::os::InotifyBus::get().inst.clear();
    auto* gone = c->ino;
    Vfs::get().lenient = true; c.reset(); Vfs::get().lenient = false;
    score::os::InotifyBus::get().inst = std::move(bus); score::os::InotifyBus::get().remove(gone);
    Vfs::get().nodes = std::move(keep);
}

enum class Mode { Plain, StopSelf, StartOther, StopOther };
struct Plan { std::vector<Spec> providers; std::vector<std::pair<Spec, Mode>> searches; bool crash; bool direct{false}; };
struct DiscSys : mc::System
{
    Plan p; Bed b; std::vector<Provider> pr; std::vector<std::shared_ptr<Search>> on; std::string hist; std::vector<Spec> all;
    std::shared_ptr<Search> inner;
    explicit DiscSys(const Plan& pl) : p(pl), b(pl.direct)
    {
        int n = 10; for (auto& s : p.providers) pr.emplace_back(s, n++);
        on.resize(p.searches.size());
        for (int s : {1, 2}) for (int i : {0, 1, 2}) for (auto q : {QualityType::kASIL_B, QualityType::kASIL_QM}) all.push_back({s, i, q});
    }
    ~DiscSys() override { for (auto& x : pr) { Act a(x.pid); x.c.reset(); } }
    static int ops(const Plan& p) { return int(p.providers.size()) * 3 + int(p.searches.size()) + 1; }
    static std::string name(const Plan& p, int o)
    {
        const int n = int(p.providers.size());
        if (o < n) return "offer or withdraw " + str(p.providers[o]);
        if (o < 2 * n) return "crash of the provider of " + str(p.providers[o - n]);
        if (o < 3 * n) return "withdraw the QM level of " + str(p.providers[o - 2 * n]);
        o -= 3 * n;
        if (o < int(p.searches.size())) return "start or stop a search for " + str(p.searches[o].first) + (p.searches[o].second == Mode::Plain ? "" : p.searches[o].second == Mode::StopSelf ? " (stops itself)" : p.searches[o].second == Mode::StartOther ? " (starts another search)" : " (stops another search)");
        return "deliver changes";
    }
    bool apply(int o) override
    {
        const int n = int(pr.size());
        const bool quiet = b.consumer->idle();
        if (o < n)
        {
            auto& x = pr[o]; Act a(x.pid);
            if (!x.offered)
            {
                if (!x.c) x.c = std::make_unique<Client>();
                auto r = x.c->c->OfferService(b.names.id(x.spec));
                MC_CHECK(r.has_value(), "a service that is not offered cannot be offered" << (x.stale ? " after its provider crashed" : ""));
                auto r2 = x.c->c->OfferService(b.names.id(x.spec));
                MC_CHECK(!r2.has_value(), "a service is offered twice");
                x.offered = true; x.qm = true; x.stale = false;
                b.truth.up[{x.spec.s, x.spec.i}] = {x.spec.q == QualityType::kASIL_B, true};
                b.visible_again();
            }
            else
            {
                auto r = x.c->c->StopOfferService(b.names.id(x.spec), impl::IServiceDiscovery::QualityTypeSelector::kBoth);
                MC_CHECK(r.has_value(), "an offered service cannot be withdrawn");
                MC_CHECK(!x.c->c->StopOfferService(b.names.id(x.spec), impl::IServiceDiscovery::QualityTypeSelector::kBoth).has_value(), "a service is withdrawn twice");
                x.offered = x.qm = false;
                b.truth.up.erase({x.spec.s, x.spec.i});
            }
        }
        else if (o < 2 * n)
        {
            auto& x = pr[o - n];
            if (!p.crash || !x.offered) return false;
            Act a(x.pid); drop(x.c); x.pid += 100; x.offered = false; x.stale = true;   // its files stay: visible until somebody offers again
        }
        else if (o < 3 * n)
        {
            auto& x = pr[o - 2 * n];
            if (!x.offered || !x.qm || x.spec.q != QualityType::kASIL_B) return false;
            Act a(x.pid);
            auto r = x.c->c->StopOfferService(b.names.id(x.spec), impl::IServiceDiscovery::QualityTypeSelector::kAsilQm);
            MC_CHECK(r.has_value(), "the QM level of an offered service cannot be withdrawn");
            x.qm = false; b.truth.up[{x.spec.s, x.spec.i}].second = false;
        }
        else if (o < 3 * n + int(on.size()))
        {
            const int k = o - 3 * n; auto& s = on[k];
            hist += std::to_string(k) + (quiet ? "" : "!");
            if (s && s->live) { b.stop(*s); s.reset(); }
            else
            {
                s = std::make_shared<Search>(); s->spec = p.searches[k].first;
                std::function<void(Search&)> in;
                switch (p.searches[k].second)
                {
                    case Mode::StopSelf: in = [this](Search& me) { b.stop(me, true); }; break;
                    case Mode::StartOther: in = [this](Search&) { if (inner) return; inner = std::make_shared<Search>(); inner->spec = {1, 0, QualityType::kASIL_QM}; auto r = b.start(inner); MC_CHECK(r.has_value(), "a search cannot be started inside a handler"); }; break;
                    case Mode::StopOther: in = [this](Search& me) { for (auto& x : on) if (x && x->live && x.get() != &me && x->uid) { b.stop(*x); return; } }; break;
                    default: break;
                }
                auto r = b.start(s, in, k % 2 == 1);
                MC_CHECK(r.has_value(), "a search cannot be started");
                if (quiet && s->live) MC_CHECK(s->last == b.truth.of(s->spec), "a new search for " << str(s->spec) << " reports " << str(s->last) << ", but " << str(b.truth.of(s->spec)) << " is offered");
            }
        }
        else
        {
            if (quiet) return false;
            hist += 'd';
            b.drain();
        }
        return true;
    }
    std::string canon() override
    {
        std::ostringstream c;
        for (auto& x : pr) c << x.offered << x.qm << x.stale << ',';
        c << Bed::files() << '|' << hist << '|';
        auto* v = b.consumer->ino; std::map<int, std::string> w(v->w.begin(), v->w.end());
        for (auto& x : w) c << x.second << ';';
        for (auto& e : v->q) { auto nm = std::string{e.GetName()}; auto a = nm.find('_'), z = nm.rfind('_'); c << '#' << (w.count(e.GetWatchDescriptor().GetUnderlying()) ? w[e.GetWatchDescriptor().GetUnderlying()] : "gone") << ' ' << static_cast<unsigned>(e.GetMask()) << ' ' << (a < z ? nm.substr(a, z - a) : nm); }
        for (auto& s : b.searches) { c << '/' << s->live << str(s->last); }
        for (auto& u : b.recent.up) c << u.first.first << u.first.second << u.second.first << u.second.second;
        return c.str();
    }
    void finish() override { for (auto& x : all) b.one_shot(x); b.drain(); b.leftovers({2, 0, QualityType::kASIL_QM}); }
};
void bfs(const char* n, const Plan& p, int d) { mc::bfs(n, mc::BfsConfig{d}, DiscSys::ops(p), [p](int o) { return DiscSys::name(p, o); }, [p] { return std::unique_ptr<mc::System>(new DiscSys(p)); }); }
constexpr auto B = QualityType::kASIL_B;
constexpr auto QM = QualityType::kASIL_QM;

MC_CASE(D01, histories)
{
    bfs("two instances: every history of offers and searches", {{{1, 1, B}, {1, 2, QM}}, {{{1, 1, QM}, Mode::Plain}, {{1, 0, QM}, Mode::Plain}, {{1, 1, B}, Mode::Plain}, {{1, 0, B}, Mode::Plain}}, true}, mc::tier(6, 9));
    bfs("two services: every history of offers and searches", {{{1, 1, B}, {2, 1, QM}, {1, 2, B}}, {{{1, 0, QM}, Mode::Plain}, {{2, 1, QM}, Mode::Plain}, {{1, 2, B}, Mode::Plain}}, true}, mc::tier(5, 8));
}
MC_CASE(D02, nested)
{
    for (bool direct : {false, true})
        bfs(direct ? "searches started and stopped inside handlers, binding only" : "searches started and stopped inside handlers", {{{1, 1, QM}, {1, 2, B}}, {{{1, 1, QM}, Mode::StopSelf}, {{1, 0, QM}, Mode::StartOther}, {{1, 0, QM}, Mode::StopOther}, {{1, 2, QM}, Mode::Plain}}, false, direct}, direct ? mc::tier(5, 8) : mc::tier(6, 9));
}

// ---- interleavings: a provider process working on the file system against a consumer and its worker ----------------
void hook(Bed& b)
{
    auto t = [&b] { mc::point("file system"); mc::ghost(&b.truth); };
    Vfs::get().step = [t](const char*, const std::string&) { t(); };
    Vfs::get().look = t;
    b.consumer->ino->touched = [t](const char*) { t(); };
    score::os::InotifyBus::get().section = [](bool in) { if (in) mc::nopreempt_begin(); else mc::nopreempt_end(); };
}
void unhook(Bed& b) { Vfs::get().step = nullptr; Vfs::get().look = nullptr; b.consumer->ino->touched = nullptr; score::os::InotifyBus::get().section = nullptr; }
struct Far   // a provider in a process of its own
{
    Bed& b; Spec x; int proc; std::unique_ptr<Client> c;
    Far(Bed& bed, Spec s) : b(bed), x(s), proc(mc::new_proc()), c(std::make_unique<Client>()) {}
    int pid() const { return 100 * proc; }
    void offer()
    {
        mc::ghost(&b.truth); auto& r = b.recent.up[{x.s, x.i}]; r.first |= x.q == B; r.second = true;
        auto res = c->c->OfferService(b.names.id(x));
        mc::ghost(&b.truth);
        MC_CHECK(res.has_value(), "a service that is not offered cannot be offered");
        b.truth.up[{x.s, x.i}] = {x.q == B, true};
    }
    void withdraw()
    {
        mc::ghost(&b.truth); b.truth.up.erase({x.s, x.i});
        MC_CHECK(c->c->StopOfferService(b.names.id(x), impl::IServiceDiscovery::QualityTypeSelector::kBoth).has_value(), "an offered service cannot be withdrawn");
    }
    ~Far() { Act a(pid()); c.reset(); }
};
void watch_one_shot(Bed& b)
{
    auto r = b.sd->FindService(b.names.id({1, 0, QM}));
    if (!r.has_value()) { mc::violation("a one-shot search fails"); return; }
    mc::ghost(&b.truth);
    Set g = b.decode({1, 0, QM}, {r->begin(), r->end()});
    for (int i : g) MC_CHECK(b.recent.at(1, i, QM), "a one-shot search finds an instance that was never offered");
    MC_CHECK(g.count(2), "a one-shot search misses an instance that is offered all the time");
}
std::shared_ptr<Search> begin_search(Bed& b, Spec x)
{
    auto s = std::make_shared<Search>(); s->spec = x;
    MC_CHECK(b.start(s).has_value(), "a search cannot be started");
    return s;
}
// the provider offers or withdraws (steps: o, w) while the consumer starts searches
void race(const char* before, const char* during, Spec first, Spec second)
{
    Bed b;
    Far still(b, {1, 2, QM}), f(b, {1, 1, B});
    auto run = [&](const char* p) { for (; *p; ++p) if (*p == 'o') f.offer(); else f.withdraw(); };
    { Act a(still.pid()); still.offer(); }
    { Act a(f.pid()); run(before); }
    hook(b);
    const int t = mc::spawn([&] { run(during); }, "provider", f.proc);
    auto s1 = begin_search(b, first);
    watch_one_shot(b);
    auto s2 = begin_search(b, second);
    mc::join(t);
    b.drain();
    unhook(b);
    b.stop(*s1); b.stop(*s2);
}
mc::Config cfg(int pre, int crashes = 0) { mc::Config c; c.preemptions = pre; c.crashes = crashes; c.max_steps = 200000; return c; }
MC_CASE(D01, races)
{
    struct R { const char* n; const char *before, *during; Spec a, c; };
    for (const R& r : {R{"first offer against searches", "", "o", {1, 0, QM}, {1, 1, B}}, R{"first offer against a specific search", "", "o", {1, 1, QM}, {1, 0, B}}, R{"offer and withdrawal against searches", "", "ow", {1, 0, QM}, {1, 1, QM}},
                       R{"withdrawal against searches", "o", "w", {1, 0, B}, {1, 1, QM}}, R{"withdrawal and new offer against searches", "o", "wo", {1, 1, QM}, {1, 0, QM}}})
        mc::explore(r.n, cfg(mc::tier(1, 2)), [r] { race(r.before, r.during, r.a, r.c); });
}
// The provider dies anywhere in an offer or withdrawal; another one takes over.
void crashing(const char* before, const char* during)
{
    Bed b;
    Far f(b, {1, 1, B}), g(b, {1, 1, B});
    auto run = [&](const char* p) { for (; *p; ++p) if (*p == 'o') f.offer(); else f.withdraw(); };
    { Act a(f.pid()); run(before); }
    auto s1 = begin_search(b, {1, 0, QM}), s2 = begin_search(b, {1, 1, B});
    hook(b);
    mc::crashable(f.proc);
    const int t = mc::spawn([&] { run(during); }, "provider", f.proc);
    mc::join(t);
    const bool died = mc::proc_dead(f.proc);
    unhook(b);
    if (died) drop(f.c);
    else { Act a(f.pid()); if (!b.truth.up.empty()) f.withdraw(); }
    b.truth.up.clear();
    {
        Act a(g.pid());
        g.offer();
        b.drain();
        for (auto& x : {Spec{1, 0, QM}, Spec{1, 1, QM}, Spec{1, 1, B}}) b.one_shot(x);
        g.withdraw();
        b.drain();
        for (auto& x : {Spec{1, 0, QM}, Spec{1, 1, QM}, Spec{1, 1, B}, Spec{1, 0, B}}) b.one_shot(x);
    }
    b.stop(*s1); b.stop(*s2);
}
MC_CASE(D01, crashes)
{
    mc::explore("crash in the first offer", cfg(mc::tier(0, 1), 1), [] { crashing("", "o"); });
    mc::explore("crash in a withdrawal", cfg(mc::tier(0, 1), 1), [] { crashing("o", "w"); });
    mc::explore("crash in a later offer", cfg(mc::tier(0, 1), 1), [] { crashing("ow", "o"); });
}
// One step of an offer fails; nothing of it may stay visible, and the next attempt succeeds.
void failing(Spec x, const char* before)
{
    Bed b;
    auto s1 = begin_search(b, {1, 0, QM}), s2 = begin_search(b, {1, 1, B});
    Far f(b, x);
    Act a(f.pid());
    for (const char* p = before; *p; ++p) if (*p == 'o') f.offer(); else if (*p == 'w') f.withdraw(); else { drop(f.c); b.truth.up.clear(); f.c = std::make_unique<Client>(); }
    bool stale = *before && before[std::strlen(before) - 1] == 'c';
    bool done = false;
    Vfs::get().fault = [&](const char* op, const std::string& path) { if (done || mc::choose(2, "fault") == 0) return false; done = true; mc::log(std::string("fails: ") + op + " " + path); return true; };
    b.recent.up[{1, 1}] = {x.q == B, true};
    auto r = f.c->c->OfferService(b.names.id(x));
    Vfs::get().fault = nullptr;
    mc::outcome(r.has_value() ? "offered" : "failed");
    if (r.has_value()) b.truth.up[{1, 1}] = {x.q == B, true};
    if (!stale || r.has_value())   // files of a crashed provider stay until an offer succeeds
    {
        b.drain();
        for (auto& y : {Spec{1, 0, QM}, Spec{1, 1, QM}, Spec{1, 1, B}}) b.one_shot(y);
    }
    if (!r.has_value()) f.offer();
    b.drain();
    for (auto& y : {Spec{1, 0, QM}, Spec{1, 1, QM}, Spec{1, 1, B}}) b.one_shot(y);
    f.withdraw();
    b.drain();
    for (auto& y : {Spec{1, 0, QM}, Spec{1, 1, QM}, Spec{1, 1, B}}) b.one_shot(y);
    b.stop(*s1); b.stop(*s2);
}
MC_CASE(D01, failures)
{
    for (auto q : {B, QM}) for (const char* before : {"", "ow", "oc"})
        mc::explore(std::string("a failing offer at ") + (q == B ? "ASIL-B" : "QM") + (*before ? before[1] == 'w' ? " after a withdrawal" : " after a crash" : ""), cfg(0), [=] { failing({1, 1, q}, before); });
}
// ---- interleavings of the consumer's threads -------------------------------------------------------------------
void stop_race(int variant)
{
    Bed b((variant & 8) != 0);
    Far f(b, {1, 1, B});
    score::os::InotifyBus::get().section = [](bool in) { if (in) mc::nopreempt_begin(); else mc::nopreempt_end(); };
    if (variant & 1) { Act a(f.pid()); f.offer(); }
    const int t = mc::spawn([&] { if (variant & 1) f.withdraw(); else f.offer(); }, "provider", f.proc);
    auto s1 = begin_search(b, {1, 1, QM});
    int u = -1;
    if (variant & 2) u = mc::spawn([&] { auto s2 = begin_search(b, {1, 0, QM}); b.stop(*s2); }, "second thread");
    if (variant & 4) { b.sd.reset(); for (auto& s : b.searches) { mc::ghost(&b.truth); MC_CHECK(s->running == 0, "the discovery is destroyed while a handler is running"); s->stop_returned = true; s->live = false; } }
    else b.stop(*s1);
    mc::join(t); if (u >= 0) mc::join(u);
    if (!(variant & 4)) b.drain();
    score::os::InotifyBus::get().section = nullptr;
}
MC_CASE(D02, stopping)
{
    const char* n[] = {"stop against an offer", "stop against a withdrawal", "two threads searching against an offer", "two threads searching against a withdrawal", "end of the discovery against an offer", "end of the discovery against a withdrawal"};
    for (int v = 0; v < 6; ++v) mc::explore(n[v], cfg(v == 2 || v == 3 ? mc::tier(1, 2) : mc::tier(2, 3)), [v] { stop_race(v); });
    for (int v = 0; v < 4; ++v) mc::explore(std::string(n[v]) + ", binding only", cfg(v >= 2 ? mc::tier(1, 2) : mc::tier(2, 3)), [v] { stop_race(8 + v); });
}
// Watches cannot be set up: the search is refused, nothing of it remains, and the other searches go on.
void refused(Spec x, bool before, bool by_name)
{
    Bed b;
    Far f(b, {1, 1, B}), g(b, {1, 2, QM});
    { Act a(f.pid()); f.offer(); }
    std::shared_ptr<Search> s1;
    if (before) s1 = begin_search(b, {1, 1, QM});
    int mode = 0, n = 0;   // 0 ok, 1 this one fails, 2 fails from now on
    b.consumer->ino->fail = [&] { if (mode != 2) mode = ++n < 12 ? mc::choose(3, "watch") : 0; return mode != 0; };
    auto s2 = std::make_shared<Search>(); s2->spec = x;
    auto r = b.start(s2, nullptr, by_name);
    b.consumer->ino->fail = nullptr;
    mc::outcome(r.has_value() ? "started" : "refused");
    if (!r.has_value())
    {
        s2->stop_returned = true; s2->live = false;
        MC_CHECK(b.tokens.use_count() == 1 + before, "the handler of a refused search is kept");
    }
    { Act a(g.pid()); g.offer(); }
    b.drain();
    auto s3 = begin_search(b, x);
    MC_CHECK(s3->last == b.truth.of(x), "a new search for " << str(x) << " reports " << str(s3->last) << ", but " << str(b.truth.of(x)) << " is offered");
    { Act a(f.pid()); f.withdraw(); }
    b.drain();
    { Act a(g.pid()); g.withdraw(); }
    b.drain();
    b.leftovers({2, 0, QM});
}
MC_CASE(D02, refusing)
{
    for (auto& x : {Spec{1, 0, QM}, Spec{1, 1, B}, Spec{1, 2, QM}}) for (bool before : {false, true}) for (bool by_name : {false, true})
        mc::explore("a search for " + str(x) + " cannot be watched" + (before ? ", another one is active" : "") + (by_name ? ", by instance specifier" : ""), cfg(0), [=] { refused(x, before, by_name); });
}
// threads that start and stop searches at the same time
void start_race(bool same)
{
    Bed b;
    Far f(b, {1, 1, B}), g(b, {1, 2, QM});
    { Act a(f.pid()); f.offer(); }
    score::os::InotifyBus::get().section = [](bool in) { if (in) mc::nopreempt_begin(); else mc::nopreempt_end(); };
    const int t = mc::spawn([&] { g.offer(); }, "provider", g.proc);
    const int u = mc::spawn([&] { auto s = begin_search(b, {1, 0, QM}); b.stop(*s); }, "second thread");
    auto s1 = begin_search(b, {1, same ? 0 : 1, QM});
    mc::join(u); mc::join(t);
    b.drain();
    b.stop(*s1);
    score::os::InotifyBus::get().section = nullptr;
}
MC_CASE(D02, starting)
{
    mc::explore("the same search started twice while one is stopped", cfg(mc::tier(1, 2)), [] { start_race(true); });
    mc::explore("two searches sharing a directory", cfg(mc::tier(1, 2)), [] { start_race(false); });
}
}  // namespace
