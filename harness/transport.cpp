// P02: server, engine and client connection of message passing over an in-memory socket layer.
#include "mc.h"
#include "sockets.h"
#include "score/message_passing/client_connection.h"
#include "score/message_passing/client_server_communication.h"
#include "score/message_passing/i_server_connection.h"
#include "score/message_passing/unix_domain/unix_domain_client_factory.h"
#include "score/message_passing/unix_domain/unix_domain_engine.h"
#include "score/message_passing/unix_domain/unix_domain_server_factory.h"
#include "score/message_passing/unix_domain/unix_domain_socket_address.h"
#include <array>
#include <atomic>
#include <optional>

namespace
{
namespace mp = score::message_passing;
using sock::Bytes; using sock::Kernel; using score::os::Error; using score::cpp::make_unexpected;
using Span = score::cpp::span<const std::uint8_t>; using Blank = score::cpp::expected_blank<Error>;
using mp::IServerConnection; using mp::UserData;
enum Code : std::uint8_t { kSend = 0, kRequest = 1, kReply = 0, kNotify = 1, kUnknown = 7 };
constexpr std::uint32_t kMaxSend = 4, kMaxReply = 3, kMaxNotify = 2;
using Engine = mp::UnixDomainEngine;
std::shared_ptr<Engine> make_engine() { return std::make_shared<Engine>(score::cpp::pmr::get_default_resource(), mp::LoggingCallback{[](auto&&...) {}}); }
std::string str(const Bytes& b) { std::string s = "<"; for (auto x : b) { char t[4]; snprintf(t, 4, "%02x", x); s += t; } return s + ">"; }
Bytes bytes(Span s) { return Bytes(s.begin(), s.end()); }
Bytes answer(Bytes b) { if (b.size() > kMaxReply) b.resize(kMaxReply); for (auto& x : b) x ^= 0x5a; return b; }

// ---- a server and raw clients: every history -------------------------------------------------------------------------
struct Hist final : mc::System
{
    static constexpr int N = 2;
    enum Style { Numbered, Handled, Refused };
    enum Mode { Good, Fails, Kicks, Silent, Leaves };       // what the handlers of messages do: answer; fail; disconnect the other client; do not answer; disconnect their own client
    enum Fault { None, Accept, Cred, Send };
    Kernel k; std::shared_ptr<Engine> e; score::cpp::pmr::unique_ptr<mp::IServer> s, other;
    struct Client { Kernel::Raw raw; bool connected{false}; Style style{Numbered}; IServerConnection* conn{nullptr}; Bytes expect; int pid{0}; };
    std::array<Client, N + 1> c;         // the last one belongs to another server of the same engine
    bool listening{false}; Style next_style{Numbered}; Mode mode{Good}; Fault fault{None}; int n{1}; int serial{0};
    std::vector<std::string> saw, want;
    struct Handler final : mp::IConnectionHandler
    {
        Hist& h; int i; Handler(Hist& o, int j) : h(o), i(j) {}
        Blank OnMessageSent(IServerConnection& c, Span m) noexcept override { return h.on(i, "handler", c, m, false); }
        Blank OnMessageSentWithReply(IServerConnection& c, Span m) noexcept override { return h.on(i, "handler", c, m, true); }
        void OnDisconnect(IServerConnection& c) noexcept override { h.gone(i, "handler", c); }
    };
    int who(IServerConnection& x) { for (int i = 0; i <= N; ++i) if (x.GetClientIdentity().pid == c[i].pid) return i; MC_CHECK(false, "a client is shown with another process's identity"); return 0; }
    Blank on(int i, const char* via, IServerConnection& x, Span m, bool request)
    {
        MC_CHECK(c[i].conn == &x && who(x) == i, "a message arrives at the handler of another connection");
        saw.push_back(std::string(via) + std::to_string(i) + (request ? " request " : " message ") + str(bytes(m)));
        if (i == N) { x.Reply(m); return {}; }
        if (mode == Kicks && c[1 - i].conn) c[1 - i].conn->RequestDisconnect();
        if (request && mode != Silent) { auto a = answer(bytes(m)); const int d = k.dropped; auto r = x.Reply({a.data(), a.size()}); MC_CHECK(r.has_value() == (d == k.dropped && c[i].raw.connected()), "replying " << (r.has_value() ? "succeeds although the reply is not sent" : "fails without a reason")); }
        if (mode == Leaves) x.RequestDisconnect();
        if (mode == Fails) return make_unexpected(Error::createFromErrno(EINVAL));
        return {};
    }
    void gone(int i, const char* via, IServerConnection& x) { MC_CHECK(c[i].conn == &x, "the end of another connection is reported"); saw.push_back(std::string(via) + std::to_string(i) + " gone"); c[i].conn = nullptr; }
    score::cpp::pmr::unique_ptr<mp::IServer> server(const char* name, std::uint32_t max) { return mp::UnixDomainServerFactory{e}.Create({name, max, kMaxReply, kMaxNotify}, {2, 0, 1}); }
    Blank listen(mp::IServer& sv, bool mine)
    {
        return sv.StartListening(
            [this, mine](IServerConnection& x) -> score::cpp::expected<UserData, Error> {
                int i = who(x); auto& d = x.GetClientIdentity();
                MC_CHECK(mine == (i < N), "a client arrives at another server");
                MC_CHECK(int(d.uid) == d.pid + 100 && int(d.gid) == d.pid + 200, "a client is shown with another user");
                saw.push_back("connect" + std::to_string(i));
                if (i < N && next_style == Refused) return make_unexpected(Error::createFromErrno(EACCES));
                c[i].conn = &x;
                if (i < N && next_style == Handled) return UserData{score::cpp::pmr::unique_ptr<mp::IConnectionHandler>{score::cpp::pmr::make_unique<Handler>(score::cpp::pmr::get_default_resource(), *this, i)}};
                return UserData{std::uintptr_t(i)};
            },
            [this](IServerConnection& x) { int i = int(std::get<std::uintptr_t>(x.GetUserData())); gone(i, "callback", x); },
            [this](IServerConnection& x, Span m) { return on(int(std::get<std::uintptr_t>(x.GetUserData())), "callback", x, m, false); },
            [this](IServerConnection& x, Span m) { return on(int(std::get<std::uintptr_t>(x.GetUserData())), "callback", x, m, true); });
    }
    Hist()
    {
        e = make_engine(); s = server("srv", kMaxSend); other = server("other", 6); k.settle();
        MC_CHECK(listen(*other, false).has_value(), "listening fails"); k.settle();
        c[N].raw = k.raw_connect("other", 50); c[N].pid = 150; c[N].connected = true; k.settle(); saw.clear();
    }
    ~Hist() override { s.reset(); other.reset(); e.reset(); }
    // what the model expects of the end of connection i
    int ended{0};
    void lost(int i) { if (!c[i].connected) return; if (ended < 2) ++ended; want.push_back((c[i].style == Handled ? "handler" : "callback") + std::to_string(i) + " gone"); c[i].connected = false; }
    void message(int i, std::uint8_t code, const Bytes& b, bool closed = false)
    {
        if (!c[i].connected) return;
        if (code > 1) { lost(i); return; }
        want.push_back((c[i].style == Handled ? "handler" : "callback") + std::to_string(i) + (code == kRequest ? " request " : " message ") + str(b));
        if (mode == Kicks && c[1 - i].connected) lost(1 - i);
        if (code == kRequest && mode != Silent && fault != Send && !closed) { auto f = sock::frame(kReply, answer(b)); c[i].expect.insert(c[i].expect.end(), f.begin(), f.end()); }
        if (code == kRequest && mode != Silent) fault = fault == Send ? None : fault;
        if (mode == Fails || mode == Leaves) lost(i);
    }
    enum { Listen, ListenFails, Unlisten, BothSend, BothClose, Mode0, Fault0 = Mode0 + 5, Per = Fault0 + 3 };
    enum { ConnectNumbered, ConnectHandled, ConnectRefused, SendOp, SendEmpty, RequestOp, TwoAtOnce, Split, RequestAndClose, BadCode, Header1, Header2, CutPayload, TooLarge, Close, NotifyOp, NotifyEmpty, NotifyLarge, ReplyOp, ReplyLarge, Kick, HeaderFails, PayloadFails, kPer };
    static constexpr int kOps = Per + N * kPer;
    static std::string name(int o)
    {
        static const char* a[] = {"start listening", "start listening, address taken", "stop listening", "both clients send at once", "both clients close at once", "handlers answer", "handlers fail", "handlers disconnect the other client", "handlers do not answer", "handlers disconnect their client", "the next accept fails", "the next credential check fails", "the next send fails"};
        static const char* b[] = {"connects", "connects, with a handler object", "connects and is refused", "sends", "sends an empty message", "sends a request", "sends two messages at once", "sends a message in pieces", "sends a request and closes", "sends an unknown code", "sends a third of a header and closes", "sends two thirds of a header and closes", "sends half a message and closes", "sends too large a message", "closes", "is notified", "is notified of nothing", "is notified of too much", "is answered unasked", "is answered with too much", "is disconnected by the server", "sends a message whose header cannot be received", "sends a message whose content cannot be received"};
        if (o < Per) return a[o];
        o -= Per; return "client " + std::to_string(o / kPer) + " " + b[o % kPer];
    }
    Bytes payload(std::size_t len) { Bytes b(len); for (auto& x : b) x = std::uint8_t(++serial); return b; }
    bool op(int o)
    {
        if (o == Listen)
        {
            if (listening) return false;
            auto r = listen(*s, true); MC_CHECK(r.has_value(), "listening fails"); listening = true; return true;
        }
        if (o == ListenFails)
        {
            if (listening) return false;
            for (int* f : {&k.fail_bind, &k.fail_listen, &k.fail_socket}) { *f = 1; auto r = listen(*s, true); MC_CHECK(!r.has_value(), "listening succeeds without an address"); k.settle(); auto x = k.raw_connect("srv", 9); MC_CHECK(!x.end, "a server that failed to listen accepts clients"); s->StopListening(); }
            return true;
        }
        if (o == Unlisten) { if (!listening) return false; for (int i = 0; i < N; ++i) lost(i); s->StopListening(); MC_CHECK(saw.size() == want.size(), "StopListening returns before every connection was ended"); listening = false; return true; }
        if (o == BothSend)     // the server may see them in either order
        {
            if (!c[0].connected || !c[1].connected) return false;
            Bytes b[2]; for (int i = 0; i < N; ++i) { b[i] = payload(2); k.raw_write(c[i].raw, sock::frame(kRequest, b[i])); }
            const Fault was = fault; k.settle(); fault = was;
            const int first = !saw.empty() && saw[0].find("1 request") != std::string::npos ? 1 : 0; message(first, kRequest, b[first]); message(1 - first, kRequest, b[1 - first]);
            return true;
        }
        if (o == BothClose) { if (!c[0].connected || !c[1].connected) return false; for (int i = 0; i < N; ++i) { lost(i); k.raw_close(c[i].raw); } return true; }
        if (o < Fault0) { mode = Mode(o - Mode0); return true; }
        if (o < Per) { fault = Fault(1 + o - Fault0); (fault == Accept ? k.fail_accept : fault == Cred ? k.fail_cred : k.fail_send) = 1; if (fault != Accept) k.fail_accept = 0; if (fault != Cred) k.fail_cred = 0; if (fault != Send) k.fail_send = 0; return true; }
        o -= Per; const int i = o / kPer; auto& x = c[i]; o %= kPer;
        if (o <= ConnectRefused)
        {
            if (x.raw.end) return false;
            next_style = Style(o); x.raw = k.raw_connect("srv", 10 + i); x.pid = 110 + i; x.expect.clear();
            MC_CHECK(bool(x.raw.end) == listening, "connecting " << (listening ? "fails" : "succeeds without a server"));
            if (!listening) return true;
            x.style = next_style;
            if (fault == Accept || fault == Cred) { fault = None; return true; }
            want.push_back("connect" + std::to_string(i));
            if (o != ConnectRefused) x.connected = true;
            return true;
        }
        if (!x.raw.end) return false;
        auto b = payload(o == TooLarge ? 7 : o == SendEmpty || o == NotifyEmpty ? 0 : o == NotifyOp ? kMaxNotify : o == NotifyLarge ? kMaxNotify + 1 : o == ReplyOp ? kMaxReply : o == ReplyLarge ? kMaxReply + 1 : kMaxSend);
        auto f = sock::frame(o == RequestOp || o == RequestAndClose ? kRequest : o == BadCode ? kUnknown : kSend, b);
        auto cut = [&](std::size_t n) { return Bytes(f.begin(), f.begin() + n); };
        switch (o)
        {
            case SendOp: case SendEmpty: case RequestOp: case BadCode: message(i, f[0], b); k.raw_write(x.raw, f); break;
            case TwoAtOnce: { message(i, f[0], b); auto g = payload(1); message(i, kRequest, g); auto h = sock::frame(kRequest, g); f.insert(f.end(), h.begin(), h.end()); k.raw_write(x.raw, f); break; }
            case Split: message(i, f[0], b); for (std::size_t p : {0, 2, 5}) { k.raw_write(x.raw, Bytes(f.begin() + p, f.begin() + (p == 0 ? 2 : p == 2 ? 5 : f.size()))); k.settle(); } break;
            case RequestAndClose: message(i, kRequest, b, true); lost(i); k.raw_write(x.raw, f); k.raw_close(x.raw); break;
            case Header1: k.raw_write(x.raw, cut(1)); k.raw_close(x.raw); lost(i); break;
            case Header2: k.raw_write(x.raw, cut(2)); k.raw_close(x.raw); lost(i); break;
            case CutPayload: k.raw_write(x.raw, cut(5)); k.raw_close(x.raw); lost(i); break;
            case TooLarge: k.raw_write(x.raw, f); lost(i); break;
            case Close: k.raw_close(x.raw); lost(i); break;
            case HeaderFails: case PayloadFails: if (!x.connected) return false; k.fail_recv = o == HeaderFails ? 1 : 2; lost(i); k.raw_write(x.raw, f); break;
            case Kick:
            {
                if (!x.connected) return false;
                lost(i); mp::ISharedResourceEngine::CommandQueueEntry q; static_cast<mp::ISharedResourceEngine&>(*e).EnqueueCommand(q, {}, [&](auto) { x.conn->RequestDisconnect(); }, this); k.settle(); break;
            }
            default:
            {
                if (!x.connected) return false;
                const bool notify = o <= NotifyLarge, large = o == NotifyLarge || o == ReplyLarge, ok = !large && fault != Send;
                auto r = notify ? x.conn->Notify({b.data(), b.size()}) : x.conn->Reply({b.data(), b.size()});
                MC_CHECK(r.has_value() == ok, "sending to a client " << (ok ? "fails without a reason" : "succeeds although nothing is sent"));
                if (large) MC_CHECK(!r.has_value() && r.error() == Error::createFromErrno(EMSGSIZE), "too large a message is refused for another reason");
                if (ok) { auto g = sock::frame(notify ? kNotify : kReply, b); x.expect.insert(x.expect.end(), g.begin(), g.end()); }
                if (!large && fault == Send) fault = None;
                break;
            }
        }
        return true;
    }
    bool apply(int o) override
    {
        want.clear(); saw.clear();
        if (!op(o)) return false;
        k.settle();
        check(name(o));
        // nobody else is disturbed
        want.clear(); saw.clear(); if (fault == Send) k.fail_send = 0;
        auto b = payload(2); k.raw_write(c[N].raw, sock::frame(kRequest, b)); c[N].expect = sock::frame(kReply, b); want.push_back("callback" + std::to_string(N) + " request " + str(b)); k.settle();
        check(name(o)); if (fault == Send) k.fail_send = 1;
        return true;
    }
    void check(const std::string& op)
    {
        if (op == name(Unlisten) || op == name(BothClose)) { std::sort(saw.begin(), saw.end()); std::sort(want.begin(), want.end()); }
        std::string a, b; for (auto& x : saw) a += x + "; "; for (auto& x : want) b += x + "; ";
        MC_CHECK(a == b, "the server's handlers saw '" << a << "' instead of '" << b << "'");
        std::size_t open = 4 + (listening ? 1 : 0);       // pipe, the other server and its connection
        for (auto& x : c)
        {
            const int i = int(&x - &c[0]);
            if (i < N && x.connected) ++open;
            if (!x.raw.end) continue;
            auto got = k.raw_read(x.raw);
            MC_CHECK(got == x.expect, "client " << i << " receives " << str(got) << " instead of " << str(x.expect));
            x.expect.clear();
            MC_CHECK(x.raw.connected() == x.connected, "a connection is " << (x.connected ? "closed without a reason" : "left open"));
            MC_CHECK((x.conn != nullptr) == x.connected, "the server's view of its clients differs from the connections");
            if (!x.raw.connected()) { x.raw.end.reset(); }
        }
        MC_CHECK(k.fds.size() == open, "the server has " << k.fds.size() << " descriptors open instead of " << open);
    }
    std::string canon() override { std::ostringstream o; o << listening << mode << fault << ended; for (auto& x : c) o << (x.raw.end ? x.connected ? 1 + int(x.style) : 4 : 0); return o.str(); }
    void finish() override
    {
        // everything still works: whoever is absent connects, speaks and one of them leaves again
        auto go = [&](int o) { apply(o); };
        go(Mode0); if (!listening) go(Listen);
        for (int i = 0; i < N; ++i) if (c[i].raw.end && !c[i].connected) { k.raw_close(c[i].raw); }
        if (fault != None) { fault = None; k.fail_accept = k.fail_cred = k.fail_send = 0; }
        for (int i = 0; i < N; ++i) if (!c[i].raw.end) go(Per + i * kPer + ConnectHandled);
        for (int i = 0; i < N; ++i) go(Per + i * kPer + RequestOp);
        go(Per + Close); go(Per + kPer + RequestOp); go(Per + ConnectNumbered); go(Per + RequestOp); go(Per + kPer + NotifyOp); go(BothSend);
        want.clear(); saw.clear();
        for (int i = 0; i < N; ++i) lost(i);
        s.reset(); std::sort(saw.begin(), saw.end()); std::sort(want.begin(), want.end()); std::string a, b; for (auto& x : saw) a += x + "; "; for (auto& x : want) b += x + "; ";
        MC_CHECK(a == b, "when the server ends its handlers saw '" << a << "' instead of '" << b << "'");
        other.reset(); e.reset();
        MC_CHECK(k.fds.empty(), "descriptors are left open when the server ends");
    }
};

// ---- client and server, each with its engine and process ---------------------------------------------------------------
using State = mp::IClientConnection::State; using Reason = mp::IClientConnection::StopReason;
Bytes message(int client, int id, std::size_t n = 2) { Bytes b(n); for (std::size_t i = 0; i < n; ++i) b[i] = i == 0 ? std::uint8_t(id) : i == 1 ? std::uint8_t(client << 4 | 1) : std::uint8_t(i * 7 + std::size_t(id)); return b; }
Span span(const Bytes& b) { return Span{b.data(), b.size()}; }
constexpr int kServerProc = 0;
struct World
{
    Kernel k; int pa{mc::new_proc()}, pb{mc::new_proc()}; std::shared_ptr<Engine> ea, eb; mp::ServiceProtocolConfig cfg; score::cpp::pmr::unique_ptr<mp::IServer> s;
    struct Client { score::cpp::pmr::unique_ptr<mp::IClientConnection> c; State now{State::kStopped}; bool started{false}, stopped{false}; std::vector<Bytes> notes; int connects{0}, ends{0}; IServerConnection* conn{nullptr}; std::vector<Bytes> got; };
    std::array<Client, 2> c; int n; std::map<IServerConnection*, int> conns; int refused{0}; bool listening{false}, gone{false}; int total_connects{0}, total_ends{0};
    World(int clients, std::uint32_t send, std::uint32_t reply, std::uint32_t note, mp::IClientFactory::ClientConfig cc = {1, 1, false, false, false}) : cfg{"srv", send, reply, note}, n(clients)
    {
        run(pa, [&] { ea = make_engine(); s = mp::UnixDomainServerFactory{ea}.Create(cfg, {2, 0, 1}); });
        run(pb, [&] { eb = make_engine(); for (int i = 0; i < n; ++i) c[i].c = mp::UnixDomainClientFactory{eb}.Create(cfg, cc); });
        k.settle();
    }
    void run(int p, const std::function<void()>& f) { mc::join(mc::spawn(f, "process", p)); }
    Bytes reply_to(const Bytes& b) { Bytes r(b); if (r.size() > cfg.max_reply_size) r.resize(cfg.max_reply_size); for (auto& x : r) x ^= 0x5a; return r; }
    Blank on(IServerConnection& x, Span m, bool request)
    {
        mc::ghost(&conns); MC_CHECK(conns.count(&x), "a message arrives from a connection that does not exist"); MC_CHECK(!gone, "a message arrives after StopListening returned");
        auto b = bytes(m);
        if (b.size() > 1) { int i = b[1] >> 4; MC_CHECK(i < n, "a message arrives that nobody sent"); MC_CHECK(!c[i].conn || c[i].conn == &x, "messages of one client arrive over different connections"); c[i].conn = &x; c[i].got.push_back(b); }
        else c[0].got.push_back(b);
        if (request) { auto r = reply_to(b); auto y = x.Reply(span(r)); static_cast<void>(y); }
        return {};
    }
    void listen()
    {
        run(pa, [&] { auto r = s->StartListening(
            [this](IServerConnection& x) -> score::cpp::expected<UserData, Error> { mc::ghost(&conns); MC_CHECK(x.GetClientIdentity().pid == 100 + pb, "a client is shown with another process's identity"); conns[&x] = 1; ++total_connects; return UserData{std::uintptr_t(1)}; },
            [this](IServerConnection& x) { mc::ghost(&conns); MC_CHECK(conns.erase(&x) == 1, "the end of a connection is reported twice"); ++total_ends; MC_CHECK(!gone, "the end of a connection is reported after StopListening returned"); },
            [this](IServerConnection& x, Span m) { return on(x, m, false); }, [this](IServerConnection& x, Span m) { return on(x, m, true); });
            MC_CHECK(r.has_value(), "listening fails"); });
    }
    void unlisten() { run(pa, [&] { s->StopListening(); mc::ghost(&conns); MC_CHECK(conns.empty(), "StopListening returns before the ends of all connections were reported"); gone = true; }); }
    void start(int i)
    {
        run(pb, [&] { c[i].c->Start([this, i](State x) { mc::ghost(this); c[i].now = x; }, [this, i](Span m) { mc::ghost(&c[i].notes); c[i].notes.push_back(bytes(m)); }); });
    }
    // time passes while nothing else happens
    void until(const char* what, const std::function<bool()>& f) { for (int t = 0; t < 3000; ++t) { { mc::ghost(this); if (f()) return; } ::usleep(t < 20 ? 1000 : 20000); } MC_CHECK(false, what); }
    void ready(int i) { until("a client never becomes ready", [&] { return c[i].now == State::kReady; }); }
    void stop(int i) { run(pb, [&] { c[i].c->Stop(); }); until("a client never stops", [&] { return c[i].now == State::kStopped; }); }
    void end()
    {
        for (int i = 0; i < n; ++i) if (c[i].now != State::kStopped) stop(i);
        { mc::NoPreempt np; run(pb, [&] { for (int i = 0; i < n; ++i) c[i].c.reset(); }); }
        k.settle();
        MC_CHECK(conns.empty() && total_connects == total_ends, "the server knows " << conns.size() << " connections after every client ended");
        mc::NoPreempt np; run(pb, [&] { eb.reset(); }); run(pa, [&] { s.reset(); ea.reset(); });
        MC_CHECK(k.fds.empty(), "descriptors are left open in the end");
    }
    void expect(int i, const std::vector<Bytes>& want) { mc::ghost(&conns); MC_CHECK(c[i].got == want, "client " << i << "'s messages arrive " << (c[i].got.size() < want.size() ? "incompletely" : c[i].got.size() > want.size() ? "more than once" : "changed or in another order")); }
};
const mp::IClientFactory::ClientConfig kPlain{1, 1, false, false, false}, kOrdered{1, 2, true, false, false}, kAsync{1, 3, true, true, false}, kSync{1, 1, false, false, true};

// every limit, every size around it
void sizes()
{
    mc::Config mcfg{0}; mcfg.max_steps = 200000;
    for (int kind = 0; kind < 3; ++kind) mc::explore(kind == 0 ? "sizes of messages" : kind == 1 ? "sizes of replies" : "sizes of notifications", mcfg, [kind] {
        static const std::uint32_t limits[] = {0, 1, 2, 255, 256, 65534, 65535, 65536, 65537, 66000, 131073};
        const std::uint32_t m = limits[mc::choose(11)]; int d = mc::choose(6); std::uint32_t z = d == 0 ? 0 : d == 1 ? 1 : d == 2 ? m - 1 : d == 3 ? m : d == 4 ? m + 1 : 65536 + 5;
        if (z > 200000) return;
        World w(1, kind == 0 ? m : 200000, kind == 1 ? m : 4, kind == 2 ? m : 4, kPlain);
        w.listen(); w.k.settle(); w.start(0); w.ready(0); w.k.settle();
        const bool fits = z <= m, framed = z <= 65535; std::vector<Bytes> want; Bytes b = message(0, 1, z), small = message(0, 2, std::min<std::uint32_t>(m, 2));
        auto refuse = [&](const Blank& r) { MC_CHECK(r.has_value() == (fits && framed), "a message of " << z << " bytes with a limit of " << m << " is " << (r.has_value() ? "sent" : "refused")); if (!r.has_value()) MC_CHECK(r.error() == Error::createFromErrno(EMSGSIZE), "too large a message is refused for another reason"); };
        if (kind == 0)
        {
            auto r = w.c[0].c->Send(span(b)); refuse(r); if (r.has_value()) want.push_back(b);
            w.k.settle(); w.expect(0, want);
            MC_CHECK(w.c[0].c->Send(span(small)).has_value(), "a message after too large a one is refused"); want.push_back(small); w.k.settle(); w.expect(0, want);
        }
        else
        {
            IServerConnection* x = w.conns.begin()->first;
            if (kind == 2) { auto r = x->Notify(span(b)); refuse(r); if (r.has_value()) want.push_back(b); MC_CHECK(x->Notify(span(small)).has_value(), "a notification after too large a one is refused"); want.push_back(small); w.k.settle(); MC_CHECK(w.c[0].notes == want, "notifications arrive incompletely, changed or more than once"); }
            else
            {
                Bytes buf(200001);
                if (fits && framed) { auto r = w.c[0].c->SendWaitReply(span(message(0, 1, z)), {buf.data(), buf.size()}); const bool can = z <= 65535; MC_CHECK(r.has_value() == can, "a request with a reply of " << z << " bytes " << (r.has_value() ? "succeeds" : "fails")); if (r.has_value()) MC_CHECK(bytes(*r) == w.reply_to(message(0, 1, z)), "a reply arrives changed"); }
                else { auto r = x->Reply(span(b)); refuse(r); w.k.settle(); MC_CHECK(w.c[0].now == State::kReady, "too large a reply reaches the client"); }
                auto r = w.c[0].c->SendWaitReply(span(small), {buf.data(), buf.size()}); MC_CHECK(r.has_value() && bytes(*r) == w.reply_to(small), "a request after too large a reply fails");
            }
        }
        MC_CHECK(w.c[0].now == State::kReady, "the size of a message ends the connection");
        w.end();
    });
}
enum Scene { TwoSend, Notifies, ServerStops, SendVsStop, ClientStops, Late, TwoRequests };
void scene(const char* name, int pre, mp::IClientFactory::ClientConfig cc, Scene sc)
{
    mc::Config cfg{pre}; cfg.max_steps = 400000;
    mc::explore(name, cfg, [=] {
        World w(sc == TwoSend || sc == TwoRequests ? 2 : 1, 4, 4, 4, cc);
        auto request = [&](int i, int id, bool may_fail) { std::uint8_t r[4]; auto x = w.c[i].c->SendWaitReply(span(message(i, id)), {r, 4}); if (x.has_value()) { MC_CHECK(bytes(*x) == w.reply_to(message(i, id)), "a request is answered with another reply"); } else MC_CHECK(may_fail, "a request fails without a reason, error " << x.error().GetOsDependentErrorCode()); return x.has_value(); };
        auto send = [&](int i, int id, bool may_fail) { auto x = w.c[i].c->Send(span(message(i, id))); MC_CHECK(x.has_value() || may_fail, "a message is refused without a reason, error " << x.error().GetOsDependentErrorCode()); return x.has_value(); };
        if (sc != Late) { w.listen(); w.k.settle(); }
        for (int i = 0; i < w.n; ++i) w.start(i);
        if (sc != Late) { for (int i = 0; i < w.n; ++i) w.ready(i); w.k.settle(); }
        w.k.points = true; { mc::ghost(&w.k); } w.k.closing_race_ok = sc == ServerStops;      // see SendVsStop
        std::vector<std::vector<Bytes>> want(2); int t = -1; std::atomic<int> dummy{0};
        switch (sc)
        {
            case TwoSend: t = mc::spawn([&] { send(1, 1, false); }, "user 1", w.pb); send(0, 1, false); send(0, 2, false); want[0] = {message(0, 1), message(0, 2)}; want[1] = {message(1, 1)}; break;
            case TwoRequests: t = mc::spawn([&] { request(1, 1, false); }, "user 1", w.pb); send(0, 1, false); request(0, 2, false); want[0] = {message(0, 1), message(0, 2)}; want[1] = {message(1, 1)}; break;
            case Notifies:
            {
                auto* x = w.conns.begin()->first;
                t = mc::spawn([&] { for (int k = 1; k < 3; ++k) { auto m = message(3, k); MC_CHECK(x->Notify(span(m)).has_value(), "a notification is refused"); } }, "server user", w.pa);
                send(0, 1, false); request(0, 2, false); want[0] = {message(0, 1), message(0, 2)}; mc::join(t); t = -1; w.k.settle();
                MC_CHECK((w.c[0].notes == std::vector<Bytes>{message(3, 1), message(3, 2)}), "notifications arrive incompletely or in another order");
                break;
            }
            case ServerStops: t = mc::spawn([&] { w.unlisten(); }, "server user", w.pa); if (send(0, 1, true)) want[0].push_back(message(0, 1)); if (request(0, 2, true)) want[0].push_back(message(0, 2)); break;
            case SendVsStop: t = mc::spawn([&] { w.unlisten(); }, "server user", w.pa); send(0, 1, true); break;
            case ClientStops: t = mc::spawn([&] { w.stop(0); }, "user 1", w.pb); if (send(0, 1, true)) want[0].push_back(message(0, 1)); if (send(0, 2, true)) want[0].push_back(message(0, 2)); break;
            case Late: t = mc::spawn([&] { w.listen(); }, "server user", w.pa); w.ready(0); send(0, 1, false); want[0] = {message(0, 1)}; break;
        }
        if (t >= 0) mc::join(t);
        w.k.points = false;
        w.k.settle();
        if (sc == ServerStops || sc == ClientStops || sc == SendVsStop)
        {
            if (sc != ClientStops) w.until("a client does not notice that its server stopped", [&] { return w.c[0].now == State::kStopped; });
            // what arrived is what was sent, from the start, and at least what was answered
            auto& g = w.c[0].got; std::vector<Bytes> all{message(0, 1), message(0, 2)};
            std::size_t p = 0; for (auto& m : g) { while (p < all.size() && all[p] != m) ++p; MC_CHECK(p < all.size(), "messages arrive in another order or more than once"); ++p; }
            if (sc == ServerStops && !want[0].empty() && want[0].back() == message(0, 2)) MC_CHECK(std::find(g.begin(), g.end(), message(0, 2)) != g.end(), "a request was answered that did not arrive");
        }
        else for (int i = 0; i < w.n; ++i) w.expect(i, want[i]);
        w.end();
    });
}
// identifiers up to the length of an address name different servers
void addresses()
{
    mc::explore("addresses", {0}, [] {
        const std::size_t a = std::size_t(mc::choose(107)), pos = std::size_t(mc::choose(3)); const bool abstract = mc::choose(2);
        if (!abstract && a == 0) return;
        std::string x(a, 'x'); if (a) x[a / 2] = '/';
        mp::detail::UnixDomainSocketAddress ad{x, abstract};
        MC_CHECK(ad.IsAbstract() == abstract, "the kind of an address is lost"); MC_CHECK(x == ad.GetAddressString(), "an address does not hold its identifier");
        MC_CHECK(ad.size() == sizeof(sockaddr_un) && ad.data()->sa_family == AF_UNIX, "an address is not one of a local socket");
        std::string y(x); if (pos == 0 && a) y[0] = 'y'; else if (pos == 1 && a) y[a - 1] = 'y'; else if (a) y.pop_back(); else y = "y";
        mp::detail::UnixDomainSocketAddress bd{y, abstract}, cd{x, abstract};
        MC_CHECK(std::memcmp(ad.data(), cd.data(), ad.size()) == 0, "one identifier makes different addresses"); MC_CHECK(std::memcmp(ad.data(), bd.data(), ad.size()) != 0, "different identifiers make one address");
    });
}

// ---- P03: the engine runs timed commands -------------------------------------------------------------------------------
void engine_timer()
{
    using E = mp::ISharedResourceEngine; using ms = std::chrono::milliseconds;
    mc::Config cfg{mc::tier(0, 1)}; cfg.max_steps = 20000;
    mc::explore("the engine's timer", cfg, [] {
        static const int dues[] = {0, 1, 4, 9}, lasts[] = {0, 3, 20}; Kernel k; auto e = make_engine(); k.settle(); const int n = mc::tier(2, 3);
        struct C { E::CommandQueueEntry q; E::TimePoint due; int last{0}, runs{0}; E::TimePoint ran; bool again{false}; }; std::array<C, 3> c; int late = 0; const int thread = mc::cur_tid();
        std::function<void(C&, int)> put = [&](C& x, int due) {
            x.due = due == 0 ? E::TimePoint{} : E::Clock::now() + ms{due};
            static_cast<E&>(*e).EnqueueCommand(x.q, x.due, [&](E::TimePoint) {
                mc::ghost(&late); MC_CHECK(e->IsOnCallbackThread() && mc::cur_tid() != thread, "a command runs on another thread than the engine's");
                ++x.runs; x.ran = E::Clock::now(); MC_CHECK(x.ran >= x.due, "a command runs before its time");
                if (x.last) ::usleep(unsigned(x.last) * 1000);
                if (x.again) { x.again = false; put(x, 4); x.runs = 0; }
            }, &late);
        };
        int load = 30;
        for (int i = 0; i < n; ++i) { auto& x = c[i]; x.last = lasts[mc::choose(3)]; x.again = i == 0 && mc::choose(2); load += 2 * x.last; put(x, dues[mc::choose(4)]); }
        MC_CHECK(!e->IsOnCallbackThread(), "a user's thread is taken for the engine's");
        bool all = false; for (int t = 0; t < load && !all; ++t) { ::usleep(1000); mc::ghost(&late); all = true; for (int i = 0; i < n; ++i) all = all && c[i].runs == 1 && !c[i].again; }
        for (int i = 0; i < n; ++i) { mc::ghost(&late); MC_CHECK(c[i].runs == 1, "a timed command ran " << c[i].runs << " times long after its time"); }
        ::usleep(50000); k.settle(); for (int i = 0; i < n; ++i) { mc::ghost(&late); MC_CHECK(c[i].runs <= 1, "a timed command runs twice"); }
        if (mc::failed()) { e.reset(); return; }
        // cleaned up: never
        c[0].last = 0; c[0].runs = 0; const bool now = mc::choose(2); put(c[0], 2); if (now) { E::CommandQueueEntry q; bool ok = false; static_cast<E&>(*e).EnqueueCommand(q, {}, [&](auto) { e->CleanUpOwner(&late); mc::ghost(&late); ok = true; }, nullptr); mc::block_until([&] { return ok; }, "clean-up"); } else e->CleanUpOwner(&late);
        int r; { mc::ghost(&late); r = c[0].runs; } ::usleep(10000); k.settle(); { mc::ghost(&late); MC_CHECK(c[0].runs == r, "a command runs after its owner was cleaned up"); }
        MC_CHECK(r == 0, "a command runs before its time");
        e.reset(); MC_CHECK(k.fds.empty(), "descriptors are left open when the engine ends");
    });
}
}

MC_CASE(P03, engine) { engine_timer(); }
MC_CASE(P02, sizes) { sizes(); }
MC_CASE(P02, addresses) { addresses(); }
MC_CASE(P02, threads)
{
    scene("two clients send", mc::tier(1, 2), kPlain, TwoSend);
    scene("two clients send, queued", mc::tier(0, 1), kAsync, TwoSend);
    scene("two clients ask and send", mc::tier(0, 1), kOrdered, TwoRequests);
    scene("notifications and requests", mc::tier(1, 2), kPlain, Notifies);
    scene("the server stops", mc::tier(1, 2), kPlain, ServerStops);
    scene("a message is sent while the server stops", mc::tier(1, 1), kPlain, SendVsStop);
    scene("the client stops", mc::tier(1, 2), kOrdered, ClientStops);
    scene("the server starts late", mc::tier(1, 2), kPlain, Late);
}
MC_CASE(P02, server)
{
    mc::bfs("every history of a server and two clients", {mc::tier(30, 30)}, Hist::kOps, Hist::name, [] { return std::unique_ptr<mc::System>(new Hist); });
}
