// E08: notification of receive handlers, and (S01) method messages, over the real MessagePassingServiceInstance.
#include "mc.h"
#include "net.h"
#include "score/concurrency/executor.h"
#include "score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h"
#include "score/mw/com/impl/bindings/lola/methods/method_error.h"
#include "score/os/unistd.h"
#include <climits>

namespace
{
using namespace score::mw::com::impl;
using lola::ElementFqId; using lola::MessagePassingServiceInstance; using lola::ClientQualityType;
using Handler = ScopedEventReceiveHandler;
struct Ids final : score::os::Unistd { pid_t p{1}; uid_t u{7}; pid_t getpid() const noexcept override { return p; } uid_t getuid() const noexcept override { return u; } };
struct Pool final : score::concurrency::Executor     // the local event threads of one process
{
    bool threads{false}; std::deque<score::cpp::pmr::unique_ptr<score::concurrency::Task>> q;
    std::size_t MaxConcurrencyLevel() const noexcept override { return 2; }
    bool ShutdownRequested() const noexcept override { return false; }
    void Shutdown() noexcept override {}
    void Enqueue(score::cpp::pmr::unique_ptr<score::concurrency::Task> t) override
    {
        if (!threads) { q.push_back(std::move(t)); return; }
        auto s = std::make_shared<score::cpp::pmr::unique_ptr<score::concurrency::Task>>(std::move(t));
        mc::spawn([s] { (**s)(score::cpp::stop_token{}); }, "local event thread");
    }
    void run() { while (!q.empty()) { auto t = std::move(q.front()); q.pop_front(); (*t)(score::cpp::stop_token{}); } }
};
struct Proc
{
    pid_t pid; net::Servers servers; net::Clients clients; Pool pool; std::unique_ptr<MessagePassingServiceInstance> m;
    Proc(net::Net& n, Ids& ids, pid_t p, uid_t u, ClientQualityType q = ClientQualityType::kASIL_QM) : pid(p), servers(n), clients(n, {p, u, 0})
    {
        ids.p = p; ids.u = u;
        m = std::make_unique<MessagePassingServiceInstance>(q, lola::AsilSpecificCfg{}, servers, clients, pool);
    }
};
struct Reg    // one receive handler
{
    std::shared_ptr<Handler> h; score::safecpp::Scope<> scope; int calls{0}; std::uint32_t no{0}; pid_t target{0}; bool off{false};
    void make() { h = std::make_shared<Handler>(scope, [this] { mc::ghost(this); ++calls; MC_CHECK(!off, "a receive handler is called after its removal returned"); }); }
    void drop() { scope.Expire(); h.reset(); mc::ghost(this); off = true; }
};
const lola::ProxyMethodInstanceIdentifier kMethod{{1, 1}, {1, MethodType::kMethod}};
const ElementFqId kEv{1, 1, 1, ServiceElementType::EVENT}, kOther{1, 2, 1, ServiceElementType::EVENT};

// ---- histories -------------------------------------------------------------------------------------------------
struct Hist final : mc::System
{
    struct Con { std::unique_ptr<Proc> p; std::vector<std::unique_ptr<Reg>> r; bool interest{false}; };   // interest: the current provider notifies this process
    net::Net n; Ids ids; std::unique_ptr<Proc> prov; std::array<Con, 2> c; std::vector<std::unique_ptr<Proc>> dead; std::vector<std::unique_ptr<Reg>> local; std::set<pid_t> stale;
    pid_t next{1000}; bool cb{false}, told{false}; int max, cons;
    Hist(int handlers, int consumers) : max(handlers), cons(consumers)
    {
        score::os::Unistd::set_testing_instance(ids);
        prov = std::make_unique<Proc>(n, ids, next++, 7);
        for (int i = 0; i < cons; ++i) c[i].p = std::make_unique<Proc>(n, ids, 100 * (i + 1), 7);
    }
    ~Hist() override { score::os::Unistd::restore_instance(); }
    enum { Notify, NotifyOther, LocalReg, LocalUnreg, CbOn, CbOff, Renew, kGlobal };
    enum { RegOne, Unreg0, Unreg1, Unreg2, Rereg, Restart, kPer };
    static int ops(int cons) { return kGlobal + cons * kPer; }
    static std::string name(int o)
    {
        static const char* g[] = {"notify", "notify another event", "local handler", "remove local handler", "watch existence", "stop watching existence", "provider restarts"};
        static const char* p[] = {"add handler", "remove handler 0", "remove handler 1", "remove handler 2", "next proxy sees the new provider", "consumer restarts"};
        return o < kGlobal ? g[o] : "consumer " + std::to_string((o - kGlobal) / kPer) + ": " + p[(o - kGlobal) % kPer];
    }
    // One notification; everybody interested is called once.
    void notify(ElementFqId e)
    {
        auto zero = [](auto& v) { for (auto& r : v) r->calls = 0; };
        for (auto& x : c) zero(x.r);
        zero(local);
        prov->m->NotifyEvent(e); prov->pool.run();
        for (int i = 0; i < cons; ++i) for (auto& r : c[i].r) MC_CHECK(r->calls == (e == kEv && c[i].interest ? 1 : 0), "a notification called a remote receive handler " << r->calls << " times instead of " << (e == kEv && c[i].interest ? 1 : 0));
        for (auto& r : local) MC_CHECK(r->calls == (e == kEv ? 1 : 0), "a notification called a local receive handler " << r->calls << " times");
    }
    void settle()
    {
        for (int i = 0; i < cons; ++i) { c[i].interest = false; for (auto& r : c[i].r) c[i].interest |= r->target == prov->pid; }
        bool any = !local.empty() || !stale.empty(); for (int i = 0; i < cons; ++i) any |= c[i].interest;
        if (cb) MC_CHECK(told == any, "the provider was told that there are " << (told ? "" : "no ") << "receive handlers although there are " << (any ? "some" : "none"));
    }
    void add(std::vector<std::unique_ptr<Reg>>& v, Proc& p)
    {
        v.push_back(std::make_unique<Reg>()); auto& r = *v.back(); r.make(); r.target = prov->pid;
        r.no = p.m->RegisterEventNotification(kEv, r.h, r.target);
    }
    void remove(std::vector<std::unique_ptr<Reg>>& v, std::size_t i, Proc& p)
    {
        auto r = std::move(v[i]); v.erase(v.begin() + std::ptrdiff_t(i));
        p.m->UnregisterEventNotification(kEv, r->no, r->target);
    }
    bool apply(int o) override
    {
        if (o < kGlobal) switch (o)
        {
            case Notify: notify(kEv); return true;
            case NotifyOther: notify(kOther); return true;
            case LocalReg: if (local.size() == 1) return false; add(local, *prov); break;
            case LocalUnreg: if (local.empty()) return false; remove(local, 0, *prov); break;
            case CbOn: if (cb) return false; cb = true; told = false; prov->m->RegisterEventNotificationExistenceChangedCallback(kEv, [this](bool b) { MC_CHECK(cb, "told about receive handlers after it stopped watching"); told = b; }); break;
            case CbOff: if (!cb) return false; prov->m->UnregisterEventNotificationExistenceChangedCallback(kEv); cb = false; break;
            case Renew:
            {
                if (next >= 1003) return false;
                local.clear(); cb = told = false; stale.clear();
                // the dead process neither listens nor sends any more
                for (auto* x : std::vector<net::Client*>(n.clients)) if (x->id.pid == prov->pid) x->close(net::Reason::kIoError);
                static_cast<void>(0); for (auto* s : servers_of(*prov)) s->StopListening();
                dead.push_back(std::move(prov));
                prov = std::make_unique<Proc>(n, ids, next++, 7);
                break;
            }
        }
        else
        {
            auto& x = c[std::size_t((o - kGlobal) / kPer)];
            switch ((o - kGlobal) % kPer)
            {
                case RegOne: if (int(x.r.size()) == max) return false; add(x.r, *x.p); break;
                case Unreg0: case Unreg1: case Unreg2: { std::size_t i = std::size_t((o - kGlobal) % kPer - Unreg0); if (i >= x.r.size()) return false; remove(x.r, i, *x.p); break; }
                case Rereg:
                {
                    auto i = std::find_if(x.r.begin(), x.r.end(), [&](auto& r) { return r->target != prov->pid; });
                    if (i == x.r.end()) return false;
                    (*i)->target = prov->pid; x.p->m->ReregisterEventNotification(kEv, prov->pid); break;
                }
                case Restart:
                {
                    if (x.p->pid % 100 == 2) return false;
                    pid_t old = x.p->pid; x.r.clear();
                    for (auto* k : std::vector<net::Client*>(n.clients)) if (k->id.pid == old) k->close(net::Reason::kIoError);
                    for (auto* s : servers_of(*x.p)) s->StopListening();
                    dead.push_back(std::move(x.p));
                    x.p = std::make_unique<Proc>(n, ids, old + 1, 7);
                    x.p->m->NotifyOutdatedNodeId(old, prov->pid);
                    break;
                }
            }
        }
        settle();
        return true;
    }
    std::vector<net::Server*> servers_of(Proc& p) { std::vector<net::Server*> v; for (auto& [k, s] : n.servers) if (k.find("_" + std::to_string(p.pid) + "_") != std::string::npos) v.push_back(s); return v; }
    std::string canon() override
    {
        std::ostringstream o; o << prov->pid << cb << told << local.size() << '|';
        for (int i = 0; i < cons; ++i) { o << c[i].p->pid << ':'; for (auto& r : c[i].r) o << r->target % 10; o << (has_client(c[i].p->pid, prov->pid) ? 'c' : '-') << (has_client(prov->pid, c[i].p->pid) ? 'c' : '-'); }
        return o.str();
    }
    bool has_client(pid_t from, pid_t to) { for (auto* k : n.clients) if (k->id.pid == from && k->name.find("_" + std::to_string(to) + "_") != std::string::npos) return true; return false; }
    void finish() override
    {
        notify(kEv); notify(kOther);
        // and once everybody left, nobody is notified
        for (int i = 0; i < cons; ++i) while (!c[i].r.empty()) { remove(c[i].r, 0, *c[i].p); settle(); notify(kEv); }
        while (!local.empty()) { remove(local, 0, *prov); settle(); }
        if (!cb) { cb = true; told = false; prov->m->RegisterEventNotificationExistenceChangedCallback(kEv, [this](bool b) { told = b; }); }
        settle();
    }
};
MC_CASE(E08, histories)
{
    mc::bfs("one consumer process with up to three handlers", {mc::tier(12, 16)}, Hist::ops(1), Hist::name, [] { return std::unique_ptr<mc::System>(new Hist(3, 1)); });
    mc::bfs("two consumer processes", {mc::tier(9, 11)}, Hist::ops(2), Hist::name, [] { return std::unique_ptr<mc::System>(new Hist(2, 2)); });
}
// Every number of interested processes and handlers around the sizes of the internal buffers.
MC_CASE(E08, many)
{
    mc::explore("many interested processes", {0}, [] {
        static const int kN[] = {0, 1, 2, 19, 20, 21, 22, 39, 40, 41, 59, 60, 61};
        const int k = kN[mc::choose(13, "processes")], shape = mc::choose(3, "process ids"), gone = mc::choose(4, "one that is gone");
        net::Net n; Ids ids; score::os::Unistd::set_testing_instance(ids);
        Proc p(n, ids, 5000, 7);
        std::vector<std::unique_ptr<Proc>> c; std::vector<std::unique_ptr<Reg>> r;
        for (int i = 0; i < k; ++i)
        {
            c.push_back(std::make_unique<Proc>(n, ids, shape == 0 ? 100 + i : shape == 1 ? INT_MAX - i : 9000 - 3 * i, 7));
            r.push_back(std::make_unique<Reg>()); r.back()->make(); c.back()->m->RegisterEventNotification(kEv, r.back()->h, p.pid);
        }
        const int lost = gone == 0 || k == 0 ? -1 : gone == 1 ? 0 : gone == 2 ? k / 2 : k - 1;
        if (lost >= 0) { c[lost]->m->NotifyOutdatedNodeId(0, 1); for (auto& [nm, s] : std::map<std::string, net::Server*>(n.servers)) if (nm.find("_" + std::to_string(c[lost]->pid) + "_") != std::string::npos) s->StopListening(); }
        p.m->NotifyEvent(kEv); p.pool.run();
        for (int i = 0; i < k; ++i) MC_CHECK(r[i]->calls == (i == lost ? 0 : 1), "a notification called a remote receive handler " << r[i]->calls << " times instead of " << (i == lost ? 0 : 1));
        score::os::Unistd::restore_instance();
    });
    mc::explore("many handlers in one process", {0}, [] {
        const int k = 1 + mc::choose(5, "handlers"), removed = mc::choose(k + 1, "removed"), remote = mc::choose(2, "remote");
        net::Net n; Ids ids; score::os::Unistd::set_testing_instance(ids);
        Proc p(n, ids, 5000, 7), c(n, ids, 100, 7); Proc& at = remote ? c : p;
        std::vector<std::unique_ptr<Reg>> r;
        for (int i = 0; i < k; ++i) { r.push_back(std::make_unique<Reg>()); r.back()->make(); r.back()->no = at.m->RegisterEventNotification(kEv, r.back()->h, p.pid); }
        if (removed < k) { at.m->UnregisterEventNotification(kEv, r[removed]->no, p.pid); }
        p.m->NotifyEvent(kEv); p.pool.run();
        for (int i = 0; i < k; ++i) MC_CHECK(r[i]->calls == (i == removed ? 0 : 1), "a notification called a receive handler " << r[i]->calls << " times instead of " << (i == removed ? 0 : 1));
        score::os::Unistd::restore_instance();
    });
}
// ---- threads ---------------------------------------------------------------------------------------------------
struct World
{
    net::Net n; Ids ids; std::unique_ptr<Proc> p, a, b; bool stop{false}; bool told{false}, watching{false}; std::vector<int> dispatch;
    explicit World(bool with_b = false)
    {
        score::os::Unistd::set_testing_instance(ids);
        p = std::make_unique<Proc>(n, ids, 1000, 7); a = std::make_unique<Proc>(n, ids, 100, 7); if (with_b) b = std::make_unique<Proc>(n, ids, 200, 7);
    }
    // From here on messages travel, and each process has the thread that receives them.
    void go()
    {
        n.sync = false; for (auto* x : {p.get(), a.get(), b.get()}) if (x) x->pool.threads = true;
        for (auto* x : {p.get(), a.get(), b.get()}) if (x) dispatch.push_back(mc::spawn([this, pid = x->pid] { serve(pid); }, "receiver"));
    }
    void serve(pid_t pid)
    {
        const std::string key = "_" + std::to_string(pid) + "_";
        auto next = [&]() -> net::Client* { for (auto* k : n.clients) if (k->to && !k->q.empty() && k->name.find(key) != std::string::npos) return k; return nullptr; };
        for (;;)
        {
            mc::block_until([&] { return stop || next(); }, "message");
            auto* k = next();
            if (!k) return;
            k->deliver();
        }
    }
    void quiesce() { mc::block_until([this] { return n.in_flight == 0; }, "quiescence"); }
    void end() { quiesce(); stop = true; mc::join_all(); n.sync = true; for (auto* x : {p.get(), a.get(), b.get()}) if (x) x->pool.threads = false; }
    void watch() { watching = true; p->m->RegisterEventNotificationExistenceChangedCallback(kEv, [this](bool x) { mc::ghost(this); MC_CHECK(watching, "told about receive handlers after it stopped watching"); told = x; }); }
    void unwatch() { p->m->UnregisterEventNotificationExistenceChangedCallback(kEv); mc::ghost(this); watching = false; }
    void reg(Proc& at, Reg& r) { if (!r.h) r.make(); r.no = at.m->RegisterEventNotification(kEv, r.h, p->pid); }
    void unreg(Proc& at, Reg& r) { at.m->UnregisterEventNotification(kEv, r.no, p->pid); r.drop(); }
    void expect(std::initializer_list<std::pair<Reg*, int>> rs)
    {
        for (auto& r : rs) r.first->calls = 0;
        p->m->NotifyEvent(kEv); p->pool.run();
        for (auto& r : rs) MC_CHECK(r.first->calls == r.second, "at rest, a notification called a receive handler " << r.first->calls << " times instead of " << r.second);
    }
    ~World() { score::os::Unistd::restore_instance(); }
};
mc::Config cfg(int p) { mc::Config c; c.preemptions = p; return c; }
// The registrations of two threads; afterwards each registered handler is notified, and the provider knows whether there are any.
void registrations(const char* before, const char* t1, const char* t2)
{
    World w; Reg r[4];      // 0, 1: handlers of the consumer process; 2, 3: handlers of the provider process
    bool on[4]{};
    auto run = [&](const char* s) { for (; *s; s += 2) { const int i = s[1] - '0'; Proc& at = i < 2 ? *w.a : *w.p; if (s[0] == '+') { w.reg(at, r[i]); mc::ghost(&on); on[i] = true; } else if (s[0] == '-') { w.unreg(at, r[i]); mc::ghost(&on); on[i] = false; } else if (s[1] == '+') w.watch(); else w.unwatch(); } };
    for (auto& x : r) x.make();
    run(before);
    w.go();
    mc::spawn([&] { run(t1); }, "t1");
    const int b = mc::spawn([&] { run(t2); }, "t2");
    static_cast<void>(b);
    w.stop = false;
    for (int t = 0; t < 2; ++t) {}
    mc::join(int(w.dispatch.back()) + 1); mc::join(b);
    w.end();
    w.expect({{&r[0], on[0]}, {&r[1], on[1]}, {&r[2], on[2]}, {&r[3], on[3]}});
    if (w.watching) MC_CHECK(w.told == (on[0] || on[1] || on[2] || on[3]), "at rest, the provider was told that there are " << (w.told ? "" : "no ") << "receive handlers although there are " << (w.told ? "none" : "some"));
}
MC_CASE(E08, registrations)
{
    struct S { const char *n, *before, *a, *b; };
    for (const S& s : {S{"two proxies of one process add handlers", "w+", "+0", "+1"}, S{"one adds while the other removes", "w++0", "-0", "+1"}, S{"both remove", "w++0+1", "-0", "-1"},
                       S{"a remote adds while a local removes", "w++2", "-2", "+0"}, S{"a remote removes while a local adds", "w++0", "-0", "+2"}, S{"a remote and a local add", "w+", "+0", "+2"},
                       S{"a remote and a local remove", "w++0+2", "-0", "-2"}, S{"a remote adds while the provider starts watching", "", "+0", "w+"}, S{"a remote removes while the provider starts watching", "+0", "-0", "w+"},
                       S{"a local adds and removes while the provider stops watching", "w+", "+2-2", "w-"}, S{"adding and removing again", "w+", "+0-0", "+1"}})
        mc::explore(s.n, cfg(mc::tier(3, 4)), [s] { registrations(s.before, s.a, s.b); });
}
// A notification under way against the removal of a handler, the addition of another, and the end of a process.
void notifying(int variant)
{
    World w(variant == 2 || variant == 3); Reg r[3]; for (auto& x : r) x.make();
    const bool local = variant == 1 || variant == 5;
    Proc& at = local ? *w.p : *w.a;
    w.reg(at, r[0]); w.reg(at, r[1]);
    if (w.b) w.reg(*w.b, r[2]);
    w.go();
    const int t1 = mc::spawn([&] { w.p->m->NotifyEvent(kEv); if (variant >= 4) w.p->m->NotifyEvent(kEv); }, "notifier");
    const int t2 = mc::spawn([&] {
        if (variant == 0 || variant == 1 || variant >= 4) w.unreg(at, r[0]);
        if (variant == 2) { w.a->m->NotifyOutdatedNodeId(200, w.p->pid); }
        if (variant == 3) { w.p->m->NotifyEvent(kEv); }
    }, "other");
    mc::join(t1); mc::join(t2);
    w.end();
    const int sent = variant >= 3 ? 2 : 1;
    MC_CHECK(r[1].calls == sent, "a registered receive handler was called " << r[1].calls << " times for " << sent << " notifications");
    MC_CHECK(r[0].calls <= sent, "a receive handler was called " << r[0].calls << " times for " << sent << " notifications");
    if (variant == 3) MC_CHECK(r[0].calls == 2 && r[2].calls == 2, "a registered receive handler missed one of two concurrent notifications");
    if (variant == 2) MC_CHECK(r[0].calls == 1 && r[2].calls <= 1, "an outdated process disturbed the notification of another");
    w.expect({{&r[0], !r[0].off}, {&r[1], 1}, {&r[2], variant == 3}});
}
MC_CASE(E08, notifications)
{
    const char* n[] = {"against a removal in the consumer", "against a removal in the provider", "against an outdated process", "two at a time", "two against a removal in the consumer", "two against a removal in the provider"};
    for (int v = 0; v < 6; ++v) mc::explore(n[v], cfg(v == 2 || v == 3 ? mc::tier(1, 2) : mc::tier(2, 3)), [v] { notifying(v); });
}
// A process ends while messages for it arrive.
MC_CASE(E08, shutdown)
{
    for (int v = 0; v < 2; ++v) mc::explore(v ? "method call to a process that ends" : "registration at a process that ends", cfg(mc::tier(3, 4)), [v] {
        World w; Reg r; r.make();
        w.a->m->NotifyOutdatedNodeId(1, w.p->pid);   // connected
        w.go();
        const int t = mc::spawn([&] {
            if (v == 0) w.reg(*w.a, r);
            else { auto x = w.a->m->CallMethod(kMethod, 0, w.p->pid); MC_CHECK(!x.has_value(), "a method call to nobody succeeded"); }
        }, "consumer");
        w.p->m.reset();
        mc::join(t);
        w.end();
    });
}

// ---- S01: method messages --------------------------------------------------------------------------------------
struct Methods final : mc::System
{
    net::Net n; Ids ids; std::unique_ptr<Proc> p; std::array<std::unique_ptr<Proc>, 2> c;   // two consumers of different users
    score::safecpp::Scope<> gone; std::unique_ptr<score::safecpp::Scope<>> sub_scope, call_scope, unsub_scope;
    int sub{0}, call{0}; bool unsub{false}, sub_dead{false}, call_dead{false}, unsub_dead{false};   // sub: 1 anyone, 2 user 7 only, 3 nobody; call: 1 for user 7, 2 for user 8
    bool refuse{false}; std::string ran;
    static constexpr lola::SkeletonInstanceIdentifier kSkel{1, 1};
    Methods()
    {
        score::os::Unistd::set_testing_instance(ids);
        p = std::make_unique<Proc>(n, ids, 1000, 7); c[0] = std::make_unique<Proc>(n, ids, 100, 7); c[1] = std::make_unique<Proc>(n, ids, 200, 8);
    }
    ~Methods() override { score::os::Unistd::restore_instance(); }
    enum { SubAny, SubSeven, SubNone, SubOff, SubExpire, CallSeven, CallEight, CallOff, CallExpire, UnsubOn, UnsubOff, UnsubExpire, Refuse, kOps };
    static std::string name(int o) { static const char* k[] = {"accept subscriptions", "accept subscriptions of one user", "accept subscriptions of nobody", "stop accepting", "subscription handler's owner ends", "accept calls of user 7", "accept calls of user 8", "stop accepting calls", "call handler's owner ends", "accept unsubscriptions", "stop accepting unsubscriptions", "unsubscription handler's owner ends", "the provider's handlers refuse"}; return k[o]; }
    bool apply(int o) override
    {
        auto& m = *p->m;
        switch (o)
        {
            case SubAny: case SubSeven: case SubNone:
            {
                auto sc = std::make_unique<score::safecpp::Scope<>>(); lola::IMessagePassingService::AllowedConsumerUids u; if (o == SubSeven) u = std::set<uid_t>{7}; if (o == SubNone) u = std::set<uid_t>{};
                auto r = m.RegisterOnServiceMethodSubscribedHandler(kSkel, {*sc, [this](lola::ProxyInstanceIdentifier i, uid_t uid, pid_t pid) -> score::Result<void> { ran += "s" + std::to_string(i.application_id) + "," + std::to_string(i.proxy_instance_counter) + "," + std::to_string(uid) + "," + std::to_string(pid) + ";"; if (refuse) return score::MakeUnexpected(lola::MethodErrc::kUnknownProxy); return {}; }}, u);
                MC_CHECK(r.has_value() == !sub, "registering a subscription handler " << (sub ? "again succeeded" : "failed"));
                if (!sub) { sub = 1 + o - SubAny; sub_scope = std::move(sc); sub_dead = false; }
                break;
            }
            case SubOff: if (!sub) return false; m.UnregisterOnServiceMethodSubscribedHandler(kSkel); sub = 0; break;
            case SubExpire: if (!sub || sub_dead) return false; sub_scope->Expire(); sub_dead = true; break;
            case CallSeven: case CallEight:
            {
                if (call) return false;
                call_scope = std::make_unique<score::safecpp::Scope<>>();
                auto r = m.RegisterMethodCallHandler(kMethod, {*call_scope, [this](std::size_t q) { ran += "c" + std::to_string(q) + ";"; }}, o == CallSeven ? 7 : 8);
                MC_CHECK(r.has_value(), "registering a call handler failed");
                call = 1 + o - CallSeven; call_dead = false; break;
            }
            case CallOff: if (!call) return false; m.UnregisterMethodCallHandler(kMethod); call = 0; break;
            case CallExpire: if (!call || call_dead) return false; call_scope->Expire(); call_dead = true; break;
            case UnsubOn:
            {
                auto sc = std::make_unique<score::safecpp::Scope<>>();
                auto r = m.RegisterOnServiceMethodUnsubscribedHandler(kSkel, {*sc, [this](lola::ProxyInstanceIdentifier i) -> score::Result<void> { ran += "u" + std::to_string(i.application_id) + "," + std::to_string(i.proxy_instance_counter) + ";"; if (refuse) return score::MakeUnexpected(lola::MethodErrc::kUnknownProxy); return {}; }});
                MC_CHECK(r.has_value() == !unsub, "registering an unsubscription handler " << (unsub ? "again succeeded" : "failed"));
                if (!unsub) { unsub = true; unsub_scope = std::move(sc); unsub_dead = false; }
                break;
            }
            case UnsubOff: if (!unsub) return false; m.UnregisterOnServiceMethodUnsubscribedHandler(kSkel); unsub = false; break;
            case UnsubExpire: if (!unsub || unsub_dead) return false; unsub_scope->Expire(); unsub_dead = true; break;
            case Refuse: refuse = !refuse; break;
        }
        probe();
        return true;
    }
    // Everything every process may ask for.
    void probe()
    {
        Proc* who[] = {p.get(), c[0].get(), c[1].get()}; const uid_t uid[] = {7, 7, 8};
        for (int i = 0; i < 3; ++i)
        {
            const lola::ProxyInstanceIdentifier id{std::uint32_t(40 + i), std::uint16_t(i)};
            for (auto skel : {kSkel, lola::SkeletonInstanceIdentifier{1, 2}, lola::SkeletonInstanceIdentifier{2, 1}})
            {
                const bool here = skel == kSkel;
                const bool runs = here && sub && !sub_dead && (sub == 1 || (sub == 2 && uid[i] == 7));
                ran.clear();
                auto r = who[i]->m->SubscribeServiceMethod(skel, id, p->pid);
                MC_CHECK(ran == (runs ? "s" + std::to_string(40 + i) + "," + std::to_string(i) + "," + std::to_string(uid[i]) + "," + std::to_string(who[i]->pid) + ";" : ""), "subscribing to methods ran '" << ran << "'");
                MC_CHECK(r.has_value() == (runs && !refuse), "subscribing to methods " << (r.has_value() ? "succeeded" : "failed"));
                const bool uruns = here && unsub && !unsub_dead;
                ran.clear();
                auto u = who[i]->m->UnsubscribeServiceMethod(skel, id, p->pid);
                MC_CHECK(ran == (uruns ? "u" + std::to_string(40 + i) + "," + std::to_string(i) + ";" : ""), "unsubscribing from methods ran '" << ran << "'");
                MC_CHECK(u.has_value() == !(uruns && refuse), "unsubscribing from methods " << (u.has_value() ? "succeeded" : "failed"));
            }
            for (auto meth : {kMethod, lola::ProxyMethodInstanceIdentifier{{1, 2}, {1, MethodType::kMethod}}, lola::ProxyMethodInstanceIdentifier{{1, 1}, {1, MethodType::kGet}}, lola::ProxyMethodInstanceIdentifier{{1, 1}, {2, MethodType::kMethod}}, lola::ProxyMethodInstanceIdentifier{{2, 1}, {1, MethodType::kMethod}}})
            {
                const bool runs = meth == kMethod && call && !call_dead && uid[i] == uid_t(6 + call);
                ran.clear();
                auto r = who[i]->m->CallMethod(meth, std::size_t(i) << 33 | 5, p->pid);
                MC_CHECK(ran == (runs ? "c" + std::to_string(std::size_t(i) << 33 | 5) + ";" : ""), "a method call ran '" << ran << "'");
                MC_CHECK(r.has_value() == runs, "a method call " << (r.has_value() ? "succeeded although nothing ran" : "failed although it ran"));
            }
        }
    }
    std::string canon() override { std::ostringstream o; o << sub << call << unsub << sub_dead << call_dead << unsub_dead << refuse; return o.str(); }
};
MC_CASE(S01, messages)
{
    mc::bfs("every history of method registrations, with every request after each step", {mc::tier(8, 12)}, Methods::kOps, Methods::name, [] { return std::unique_ptr<mc::System>(new Methods); });
}
}  // namespace
