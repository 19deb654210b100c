// P01: the client connection of message passing, over a transport engine that enumerates its answers.
#include "mc.h"
#include "score/message_passing/client_connection.h"
#include "score/message_passing/client_server_communication.h"
#include "score/message_passing/timed_command_queue.h"
#include <atomic>
#include <deque>
#include <map>
#include <set>

namespace
{
namespace mp = score::message_passing;
using mp::ISharedResourceEngine; using mp::detail::ClientConnection; using mp::detail::ServerToClient; using mp::detail::ClientToServer;
using State = mp::IClientConnection::State; using Reason = mp::IClientConnection::StopReason;
using score::os::Error; using score::cpp::make_unexpected; using Span = score::cpp::span<const std::uint8_t>;
using Answer = score::cpp::expected<Span, Error>;
const char* str(State s) { static const char* n[] = {"Starting", "Ready", "Stopping", "Stopped"}; return n[int(s)]; }
const char* str(Reason s) { static const char* n[] = {"none", "init", "user request", "permission", "closed by peer", "I/O error", "shutdown"}; return n[int(s)]; }
constexpr std::uint32_t kMax = 4;
enum Mode { Listening, Absent, Refusing, Forbidden, Broken, kModes };

// The engine and the peer behind it. One connection at a time; its descriptor is the number of the connection.
struct Engine final : ISharedResourceEngine
{
    struct In { std::uint8_t code; std::vector<std::uint8_t> b; int err; };
    mp::LoggingCallback log; mp::detail::TimedCommandQueue q; std::vector<PosixEndpointEntry*> ep;
    Mode mode{Listening}; int fds{0}, open{0}, attempts{0}; bool closed_by_peer{false}, end_seen{false}, fail_next{false}, on_engine{false}, threads{false}, auto_reply{false}; int engine_tid{-1};
    std::deque<In> in; std::function<void(int fd, bool request, int id)> sent; std::function<void(bool ok)> attempted; std::function<void(int id)> failed; TimePoint timer{}; int commands{0};
    std::map<CommandQueueEntry*, std::pair<CommandCallback, const void*>> outstanding;
    std::vector<std::uint8_t> buf; std::int64_t last_delay{0};
    score::cpp::pmr::memory_resource* GetMemoryResource() noexcept override { return score::cpp::pmr::get_default_resource(); }
    const mp::LoggingCallback& GetLogger() & noexcept override { return log; }
    bool IsOnCallbackThread() const noexcept override { return threads ? mc::cur_tid() == engine_tid : on_engine; }
    void touch(const char* w) { if (threads) { mc::point(w); mc::ghost(this); } }
    score::cpp::expected<std::int32_t, Error> TryOpenClientConnection(std::string_view id) noexcept override
    {
        touch("connect");
        MC_CHECK(id == "srv", "another service is connected to");
        ++attempts;
        static const int err[] = {0, ENOENT, ECONNREFUSED, EACCES, EIO};
        if (attempted) attempted(mode == Listening);
        if (mode != Listening) return make_unexpected(Error::createFromErrno(err[mode]));
        MC_CHECK(open == 0, "a second connection is opened while the first is open");
        open = ++fds; closed_by_peer = end_seen = false; in.clear(); return open;
    }
    void CloseClientConnection(std::int32_t fd) noexcept override { touch("close"); MC_CHECK(fd == open && fd != 0, "a descriptor is closed that is not open"); open = 0; in.clear(); }
    score::cpp::expected_blank<Error> SendProtocolMessage(std::int32_t fd, std::uint8_t code, Span m) noexcept override
    {
        touch("send");
        if (fd != open || fd <= 0) return make_unexpected(Error::createFromErrno(EBADF));
        if (fail_next) { fail_next = false; if (failed) failed(m[0]); return make_unexpected(Error::createFromErrno(EAGAIN)); }
        if (closed_by_peer) return make_unexpected(Error::createFromErrno(EPIPE));
        const bool request = code == std::uint8_t(ClientToServer::REQUEST);
        MC_CHECK(request || code == std::uint8_t(ClientToServer::SEND), "a message of an unknown kind is sent");
        MC_CHECK(m.size() == 2 && m[1] == std::uint8_t(m[0] ^ 0x5a), "a message is sent with another content than that given");
        if (sent) sent(fd, request, m[0]);
        if (request && auto_reply) reply(m[0]);
        return {};
    }
    void reply(int id) { in.push_back({std::uint8_t(ServerToClient::REPLY), {std::uint8_t(id), std::uint8_t(0x80 | id)}, 0}); }
    score::cpp::expected<Span, Error> ReceiveProtocolMessage(std::int32_t fd, std::uint8_t& code) noexcept override
    {
        touch("receive");
        MC_CHECK(fd == open && fd != 0, "a descriptor is read that is not open");
        if (in.empty() && closed_by_peer) end_seen = threads;      // no busy waiting for the thread that stops the connection
        if (in.empty()) return make_unexpected(Error::createFromErrno(closed_by_peer ? EPIPE : EAGAIN));
        auto x = in.front(); in.pop_front();
        if (x.err) return make_unexpected(Error::createFromErrno(x.err));
        buf = x.b; code = x.code; return Span{buf.data(), buf.size()};
    }
    void EnqueueCommand(CommandQueueEntry& e, const TimePoint until, CommandCallback cb, const void* const owner) noexcept override
    {
        if (until != TimePoint{})
        {
            auto d = std::chrono::duration_cast<std::chrono::milliseconds>(until - Clock::now()).count();
            MC_CHECK(d > 0 && d <= 5000, "a connection attempt is repeated after " << d << " ms");
            timer = std::max(timer, until);
        }
        outstanding[&e] = {std::move(cb), owner};
        q.RegisterTimedEntry(e, until, [this, &e](TimePoint t) { mc::ghost(this); auto f = std::move(outstanding[&e].first); outstanding.erase(&e); f(t); }, owner);
        if (threads) { mc::ghost(this); ++commands; }
    }
    void RegisterPosixEndpoint(PosixEndpointEntry& e) noexcept override
    {
        MC_CHECK(IsOnCallbackThread(), "an endpoint is registered outside the engine's thread");
        MC_CHECK(e.fd == open && e.fd != 0, "an endpoint is registered for a descriptor that is not open");
        MC_CHECK(e.max_receive_size >= kMax, "an endpoint is registered with too small a receive size");
        ep.push_back(&e);
    }
    void UnregisterPosixEndpoint(PosixEndpointEntry& e) noexcept override
    {
        MC_CHECK(IsOnCallbackThread(), "an endpoint is unregistered outside the engine's thread");
        auto i = std::find(ep.begin(), ep.end(), &e); if (i == ep.end()) return;
        ep.erase(i); if (!e.disconnect.empty()) e.disconnect();
    }
    void CleanUpOwner(const void* const owner) noexcept override
    {
        if (!IsOnCallbackThread())       // handed to the engine's thread and waited for
        {
            if (!threads) { on_engine = true; CleanUpOwner(owner); on_engine = false; return; }
            std::atomic<bool> done{false}; bool seen = false; CommandQueueEntry c;
            EnqueueCommand(c, TimePoint{}, [&, owner](auto) { CleanUpOwner(owner); mc::ghost(this); seen = true; done = true; }, owner);
            mc::block_until([&] { return seen; }, "clean-up by the engine"); static_cast<void>(done.load());
            return;
        }
        for (bool more = true; more;) { more = false; for (auto* e : ep) if (e->owner == owner) { UnregisterPosixEndpoint(*e); more = true; break; } }
        q.CleanUpOwner(owner); mc::ghost(this);
        for (auto i = outstanding.begin(); i != outstanding.end();) i = i->second.second == owner ? outstanding.erase(i) : std::next(i);
    }
    // one round of the engine's thread
    bool readable() const { return !ep.empty() && (!in.empty() || (closed_by_peer && !end_seen)); }
    void run_commands(bool timers)
    {
        const bool was = on_engine; on_engine = true;
        q.ProcessQueue(timers && timer != TimePoint{} ? timer : TimePoint{});
        on_engine = was;
    }
    void input() { on_engine = true; ep.front()->input(); on_engine = false; }
};

struct Cfg { bool ordered, async, sync; std::uint32_t queue, replies; };

// ---- histories -------------------------------------------------------------------------------------------------
struct Hist final : mc::System
{
    Cfg cfg; std::shared_ptr<Engine> e; std::optional<ClientConnection> c;
    // what the user has seen and is owed
    std::vector<State> seen; bool started{false}, inside_switch{false}; Reason cause{Reason::kInit}; bool cause_open{false};
    struct M { int id; bool request; int fd; bool delivered{false}, done{false}; int then{0}; };
    std::vector<M> msgs; int next{1}, current{0}; bool current_request{false}, current_delivered{false}; std::vector<int> unanswered; std::deque<int> notes; int noted{0}, starts{0};
    int on_ready{0}, on_starting{0}, on_stopped{0}, on_stopping{0}, on_notify{0}; bool destroyed{false}, expect_stopping{false};
    explicit Hist(Cfg k, bool ready = false) : cfg(k), e(std::make_shared<Engine>())
    {
        mp::IClientFactory::ClientConfig cc{k.replies, k.queue, k.ordered, k.async, k.sync};
        c.emplace(e, mp::ServiceProtocolConfig{"srv", kMax, kMax, kMax}, cc);
        e->sent = [this](int fd, bool r, int id) { arrive(fd, r, id); };
        e->failed = [this](int id) { for (auto& m : msgs) if (m.id == id && !m.request) m.done = true; };     // a queued message that nobody waits for is lost
        e->attempted = [this](bool ok) {
            MC_CHECK(state() == State::kStarting || state() == State::kStopping, "a connection attempt is made in state " << str(state()));
            if (ok) notes.clear();
            else if (e->mode == Forbidden || e->mode == Broken) set_cause(e->mode == Forbidden ? Reason::kPermission : Reason::kIoError);
        };
        if (ready) { start(); engine(false); MC_CHECK(state() == State::kReady, "a connection to a listening server does not become ready"); }
    }
    ~Hist() override { if (c) { teardown(); } }
    State state() const { return c ? c->GetState() : State::kStopped; }
    void state_cb(State s)
    {
        const State last = seen.empty() ? State::kStopped : seen.back();
        const bool ok = (last == State::kStopped && s == State::kStarting) || (last == State::kStarting && (s == State::kReady || s == State::kStopping)) || (last == State::kReady && s == State::kStopping) || (last == State::kStopping && s == State::kStopped);
        MC_CHECK(ok, "state " << str(s) << " is reported after " << str(last));
        MC_CHECK(c->GetState() == s, "state " << str(s) << " is reported while it is " << str(c->GetState()));
        MC_CHECK((s == State::kStopping || s == State::kStopped) == (c->GetStopReason() != Reason::kNone), "the reason of the stop is '" << str(c->GetStopReason()) << "' in state " << str(s));
        seen.push_back(s);
        if (s == State::kStopped)
        {
            MC_CHECK(e->open == 0, "a stopped connection keeps its descriptor open");
            MC_CHECK(e->ep.empty(), "a stopped connection keeps its endpoint");
            check_all_done("the connection stopped"); unanswered.clear();
            MC_CHECK(c->GetStopReason() == cause, "the connection stopped because of '" << str(cause) << "' but reports '" << str(c->GetStopReason()) << "'");
        }
        auto take = [](int& x) { int v = x; x = 0; return v; };
        switch (s)
        {
            case State::kStarting: if (take(on_starting)) stop(); break;
            case State::kReady: switch (take(on_ready)) { case 1: stop(); break; case 2: request(0); break; case 3: send(); break; } break;
            case State::kStopping: if (take(on_stopping)) { c->Restart(); c->Stop(); } break;
            case State::kStopped: switch (take(on_stopped)) { case 1: restart(); break; case 2: c.reset(); destroyed = true; break; } break;
        }
    }
    void check_all_done(const char* when)
    {
        for (auto& m : msgs) MC_CHECK(!m.request || m.done, "a request is never answered although " << when);
        msgs.clear();
    }
    void note_cb(Span m)
    {
        MC_CHECK(state() == State::kReady || state() == State::kStopping, "a notification is handed over in state " << str(state()));
        if (m.empty()) ++noted;
        else { MC_CHECK(!notes.empty() && m[0] == notes.front() && m.size() == 1, "another notification is handed over than the next one sent"); if (!notes.empty()) notes.pop_front(); }
        switch (std::exchange(on_notify, 0)) { case 1: stop(); break; case 2: request(0); break; case 3: send(); break; }
    }
    // a message arrives at the peer
    void arrive(int fd, bool r, int id)
    {
        auto i = std::find_if(msgs.begin(), msgs.end(), [&](auto& m) { return m.id == id; });
        if (id == current) { MC_CHECK(!current_delivered && r == current_request, "a message arrives twice or as another kind"); current_delivered = true; }
        else
        {
            if (i == msgs.end()) { MC_CHECK(false, "a message arrives that was not accepted"); return; }
            MC_CHECK(!i->delivered, "a message arrives twice");
            MC_CHECK(i->request == r, "a message arrives as another kind");
            MC_CHECK(i->fd == fd, "a message of an earlier connection arrives at a later one");
            MC_CHECK(!i->done, "a request arrives after its failure was reported");
            i->delivered = true;
        }
        const int order = id == current ? 1 << 20 : id;
        for (auto& m : msgs) if (m.id < order && m.id != id && m.fd == fd && (cfg.ordered || cfg.async || (r && m.request)))
            MC_CHECK(m.delivered || m.done, "a message overtakes an earlier one");
        if (r) unanswered.push_back(id);
    }
    std::size_t queued() const { std::size_t n = 0; for (auto& m : msgs) n += !m.delivered && !m.done; return n; }
    bool requests() const { for (auto& m : msgs) if (m.request && !m.done) return true; return false; }
    bool outstanding() const { for (auto& m : msgs) if (m.request && m.delivered && !m.done) return true; return false; }
    std::vector<std::uint8_t> bytes(int id) { return {std::uint8_t(id), std::uint8_t(id ^ 0x5a)}; }
    void judge(int id, bool r, const score::cpp::expected_blank<Error>& x, bool ready, bool full, bool faulty, int then)
    {
        const bool del = current_delivered; current = 0;
        const int err = x.has_value() ? 0 : x.error().GetOsDependentErrorCode();
        if (!ready) { MC_CHECK(err == EINVAL, "a message is accepted by a connection that is not ready"); return; }
        if (err == ENOBUFS) MC_CHECK(full, "a message is refused for lack of buffers although there are some");
        else if (err) MC_CHECK(faulty, "a message is refused without a reason, error " << err);
        if (err) { MC_CHECK(!del, "a message arrives although it was refused"); return; }
        if (!del && full && !cfg.async && !faulty) MC_CHECK(false, "a message is accepted beyond the limit of the queue");
        msgs.push_back({id, r, e->fds, del, false, then});
    }
    void send()
    {
        if (!c) return;
        const int id = next++; current = id; current_request = false; current_delivered = false;
        const bool ready = state() == State::kReady, full = queued() >= cfg.queue + cfg.replies, faulty = e->fail_next || e->closed_by_peer; auto b = bytes(id);
        auto x = c->Send(b);
        judge(id, false, x, ready, full, faulty, 0);
    }
    void request(int then)
    {
        if (!c || stray()) return;      // the protocol cannot tell a stray reply from that to a later request
        const int id = next++; current = id; current_request = true; current_delivered = false;
        const bool ready = state() == State::kReady, full = queued() >= cfg.queue + cfg.replies, faulty = e->fail_next || e->closed_by_peer; auto b = bytes(id);
        auto x = c->SendWithCallback(b, [this, id](Answer a) { answered(id, a); });
        judge(id, true, x, ready, full, faulty, then);
    }
    void answered(int id, Answer& a)
    {
        auto i = std::find_if(msgs.begin(), msgs.end(), [&](auto& m) { return m.id == id; });
        if (i == msgs.end()) { MC_CHECK(false, "a request is answered that was refused, or answered after the stop"); return; }
        MC_CHECK(!i->done, "a request is answered twice");
        if (a.has_value())
        {
            MC_CHECK(i->delivered, "a request is answered before it arrived");
            MC_CHECK(a->size() == 2 && (*a)[0] == id && (*a)[1] == (0x80 | id), "a request is answered with the reply to another one");
        }
        i->done = true; const int then = i->then;
        switch (then) { case 1: request(0); break; case 2: stop(); break; case 3: send(); break; case 4: { std::uint8_t r[4]; auto b = bytes(1); auto x = c->SendWaitReply(b, {r, 4}); MC_CHECK(!x.has_value() && x.error().GetOsDependentErrorCode() == EAGAIN, "a blocking request from a callback is not refused"); } break; }
    }
    void set_cause(Reason r) { if (!cause_open && (state() == State::kStarting || state() == State::kReady)) { cause = r; cause_open = true; } }
    void start() { cause_open = false; ++starts; c->Start([this](State s) { state_cb(s); }, [this](Span m) { note_cb(m); }); started = true; }
    void restart() { if (state() == State::kStopped) { cause_open = false; ++starts; } c->Restart(); }
    
    void stop() { set_cause(Reason::kUserRequested); c->Stop(); }

    enum { Start, Restart, Stop, Send, SendBig, Req, ReqThenReq, ReqThenStop, ReqThenSend, ReqThenWait, Commands, Timers, Input, Ping,
           Reply, Notify, Close, Garbage, Unsolicited, ReadError, Spurious, FailNext, ModeBase, OnStarting = ModeBase + kModes, OnReadyStop, OnReadyReq, OnReadySend, OnStoppedRestart, OnStoppedDestroy, OnStoppingRestart, OnNotifyStop, OnNotifyReq, OnNotifySend, kOps };
    static std::string name(int o)
    {
        static const char* n[] = {"start", "restart", "stop", "send", "send too much", "request", "request, then another", "request, then stop", "request, then send", "request, then a blocking one", "engine: commands", "engine: timers", "engine: input", "engine: ping",
            "peer: reply", "peer: notify", "peer: close", "peer: garbage", "peer: unsolicited reply", "read error", "spurious wake-up", "next send fails",
            "server listens", "server absent", "server refuses", "server forbids", "server broken", "when starting: stop", "when ready: stop", "when ready: request", "when ready: send", "when stopped: restart", "when stopped: destroy", "when stopping: restart and stop", "on notification: stop", "on notification: request", "on notification: send"};
        return n[o];
    }
    bool in_ready() const { return e->open && !e->ep.empty(); }
    void engine(bool timers)
    {
        e->run_commands(timers);
    }
    void input()
    {
        // the true reason of a stop caused by what is read
        if (!e->in.empty())
        {
            auto& x = e->in.front();
            if (x.err && x.err != EAGAIN) set_cause(Reason::kIoError);
            else if (!x.err && x.code > 1) set_cause(Reason::kIoError);
            else if (!x.err && x.code == std::uint8_t(ServerToClient::REPLY) && unsolicited()) set_cause(Reason::kIoError);
        }
        else if (e->closed_by_peer) set_cause(Reason::kClosedByPeer);
        e->input();
    }
    bool stray() const { for (auto& x : e->in) if (!x.err && x.code == 0 && x.b.empty()) return true; return false; }
    bool unsolicited() const { return e->in.front().b.empty(); }
    bool apply(int o) override
    {
        if (destroyed) return false;
        const auto st = state();
        switch (o)
        {
            case Start: if (started) return false; start(); break;
            case Restart: if (!started || starts >= 3) return false; restart(); break;
            case Stop: if (!started) return false; stop(); break;
            case Send: if (next > 6) return false; send(); break;
            case SendBig: { std::vector<std::uint8_t> b(kMax + 1, 1); auto x = c->Send(b); auto y = c->SendWithCallback(b, [](Answer) { MC_CHECK(false, "a request that is too big is answered"); });
                            MC_CHECK(!x.has_value() && x.error().GetOsDependentErrorCode() == EMSGSIZE && !y.has_value() && y.error().GetOsDependentErrorCode() == EMSGSIZE, "a message that is too big is not refused"); break; }
            case Req: case ReqThenReq: case ReqThenStop: case ReqThenSend: case ReqThenWait: if (next > 6 || stray()) return false; request(o - Req); break;
            case Commands: case Timers: engine(o == Timers); break;
            case Input: if (!e->readable()) return false; input(); break;
            case Ping: if (!in_ready()) return false; { int n = noted; e->on_engine = true; e->ep.front()->ping(); e->on_engine = false; MC_CHECK(noted == n + 1, "a wake-up of the peer is not handed over"); } break;
            case Reply: if (unanswered.empty() || e->closed_by_peer || !e->open) return false; e->reply(unanswered.front()); unanswered.erase(unanswered.begin()); break;
            case Notify: if (!e->open || e->closed_by_peer || notes.size() > 1) return false; notes.push_back(next + 50); e->in.push_back({std::uint8_t(ServerToClient::NOTIFY), {std::uint8_t(next + 50)}, 0}); break;
            case Close: if (!e->open || e->closed_by_peer) return false; e->closed_by_peer = true; break;
            case Garbage: if (!e->open || e->closed_by_peer) return false; e->in.push_back({7, {1}, 0}); break;
            case Unsolicited: if (!e->open || e->closed_by_peer || outstanding() || requests()) return false; for (auto& x : e->in) if (!x.err && x.code == 0) return false; e->in.push_back({std::uint8_t(ServerToClient::REPLY), {}, 0}); break;
            case ReadError: if (!e->open) return false; e->in.push_back({0, {}, EIO}); break;
            case Spurious: if (!e->open) return false; e->in.push_back({0, {}, EAGAIN}); break;
            case FailNext: if (e->fail_next || !e->open) return false; e->fail_next = true; break;
            case OnStarting: if (started) return false; on_starting = 1; break;
            case OnReadyStop: case OnReadyReq: case OnReadySend: if (on_ready) return false; on_ready = o - OnReadyStop + 1; break;
            case OnStoppedRestart: case OnStoppedDestroy: if (on_stopped || starts > 2) return false; on_stopped = o - OnStoppedRestart + 1; break;
            case OnStoppingRestart: if (on_stopping) return false; on_stopping = 1; break;
            case OnNotifyStop: case OnNotifyReq: case OnNotifySend: if (on_notify || notes.empty()) return false; on_notify = o - OnNotifyStop + 1; break;
            default: if (e->mode == Mode(o - ModeBase)) return false; e->mode = Mode(o - ModeBase); break;
        }
        if (e->open == 0) notes.clear();
        if (c) MC_CHECK(seen.empty() ? c->GetState() == State::kStopped : c->GetState() == seen.back(), "the connection is in state " << str(c->GetState()) << " but last reported " << (seen.empty() ? "nothing" : str(seen.back())));
        static_cast<void>(st);
        return true;
    }
    std::string canon() override
    {
        std::string s; auto n = [&](int x) { s += std::to_string(x); s += ','; };
        n(int(state())); n(c ? int(c->GetStopReason()) : 9); n(started); n(starts); n(e->mode); n(e->open != 0); n(e->closed_by_peer); n(e->fail_next); n(int(e->ep.size())); n(next);
        for (auto& m : msgs) { n(m.request); n(m.delivered); n(m.done); n(m.then); }
        s += '|'; for (auto& x : e->in) { n(x.code); n(x.err); n(x.b.empty()); } s += '|'; n(int(unanswered.size())); n(int(notes.size()));
        n(on_ready); n(on_starting); n(on_stopped); n(on_stopping); n(on_notify); n(destroyed); n(int(cause)); n(cause_open); n(int(pendings()));
        return s;
    }
    int pendings() const { return e->attempts > 2 ? 2 : e->attempts; }
    void drain() { for (int i = 0; i < 30; ++i) { engine(true); if (e->readable()) input(); } }
    void teardown()
    {
        on_ready = on_starting = on_stopped = on_stopping = on_notify = 0;
        if (started) { stop(); for (int i = 0; i < 5 && c; ++i) engine(true); }
        MC_CHECK(!c || c->GetState() == State::kStopped, "a stopped connection does not reach the stopped state");
        if (c && c->GetState() == State::kStopped) c.reset();
        else if (c) new (&leak) char;
    }
    char leak{};
    // a ready connection serves everything, and has its whole queue
    void probe()
    {
        e->fail_next = false;
        auto serve = [&] { for (int i = 0; i < 12; ++i) { engine(false); while (!unanswered.empty()) { e->reply(unanswered.front()); unanswered.erase(unanswered.begin()); } while (e->readable() && state() == State::kReady) input(); } };
        serve();
        if (state() != State::kReady) return;
        for (auto& m : msgs) { MC_CHECK(m.delivered || m.done, "an accepted message never arrives"); MC_CHECK(!m.request || m.done, "a request is never answered"); }
        msgs.clear(); next = 1;
        request(0); engine(false);
        MC_CHECK(unanswered.size() == 1, "a request does not arrive");
        for (std::uint32_t i = 0; i < cfg.queue + cfg.replies; ++i) { auto n = msgs.size(); request(0); MC_CHECK(msgs.size() == n + 1, "the queue has fewer places than configured"); }
        { auto n = msgs.size(); request(0); MC_CHECK(msgs.size() == n, "the queue has more places than configured"); }
        serve();
        for (auto& m : msgs) MC_CHECK(m.done, "a request is never answered");
        MC_CHECK(state() == State::kReady, "the connection stops without a reason");
    }
    void finish() override
    {
        if (!c) { check_all_done("the connection was destroyed"); return; }
        on_ready = on_starting = on_stopped = on_stopping = on_notify = 0;
        if (!started) { teardown(); return; }
        e->fail_next = false; e->mode = Listening; next = 1 + next;
        drain();
        if (!e->closed_by_peer && state() == State::kReady) probe();
        if (!c) return;
        stop(); drain();
        MC_CHECK(state() == State::kStopped, "a connection does not stop");
        e->mode = Listening; restart(); drain();
        MC_CHECK(state() == State::kReady, "a restarted connection does not become ready");
        if (state() == State::kReady) probe();
        teardown();
        check_all_done("the connection was destroyed");
    }
};
void histories(const char* name, Cfg k, int depth, bool ready = false) { mc::bfs(name, {depth}, Hist::kOps, Hist::name, [=] { return std::unique_ptr<mc::System>(new Hist(k, ready)); }); }

// ---- interleavings ---------------------------------------------------------------------------------------------
// The engine's thread runs commands and input until the connection is gone; the peer answers every request at once.
struct World
{
    std::shared_ptr<Engine> e{std::make_shared<Engine>()}; std::optional<ClientConnection> c; bool quit{false}; int engine_tid{-1};
    std::vector<State> seen; State now{State::kStopped}; std::map<int, int> arrived; bool gone{false}; int restart{0}; bool stop_called{false};
    explicit World(Cfg k)
    {
        e->threads = true; e->auto_reply = true;
        e->sent = [this](int, bool, int id) { mc::ghost(e.get()); MC_CHECK(++arrived[id] == 1, "a message arrives twice"); };
        mp::IClientFactory::ClientConfig cc{k.replies, k.queue, k.ordered, k.async, k.sync};
        c.emplace(e, mp::ServiceProtocolConfig{"srv", kMax, kMax, kMax}, cc);
        e->engine_tid = engine_tid = mc::spawn([this] {
            for (;;)
            {
                mc::block_until([this] { return quit || e->commands > 0 || e->readable(); }, "engine waits");
                mc::ghost(e.get());
                if (quit && !e->commands) return;
                e->commands = 0;
                e->q.ProcessQueue(ISharedResourceEngine::TimePoint::max());
                if (e->readable()) e->ep.front()->input();
            }
        }, "engine");
    }
    void start()
    {
        c->Start([this](State s) {
            mc::ghost(this);
            MC_CHECK(!gone, "a state is reported after the connection was destroyed");
            for (auto i = seen.rbegin(); i != seen.rend() && *i != State::kStopped; ++i) MC_CHECK(*i != s, "state " << str(s) << " is reported twice");
            const State last = seen.empty() ? State::kStopped : seen.back();
            MC_CHECK(s != State::kStarting || last == State::kStopped, "Starting is reported after " << str(last));
            MC_CHECK(s != State::kStopped || last == State::kStopping || (last == State::kReady && stop_called), "Stopped is reported after " << str(last));
            // the report of Ready may overlap a Stop() called by another thread
            MC_CHECK(s != State::kReady || last == State::kStarting || (last == State::kStopping && stop_called), "Ready is reported after " << str(last));
            seen.push_back(s); now = s;
        }, [](Span) {});
    }
    void ready() { mc::block_until([this] { return now == State::kReady || now == State::kStopped; }, "connection becomes ready"); mc::ghost(this); MC_CHECK(now == State::kReady, "the connection does not become ready"); }
    void stop() { { mc::ghost(this); stop_called = true; } c->Stop(); }
    void peer_closes() { mc::point("peer closes"); mc::ghost(e.get()); e->closed_by_peer = true; }
    std::vector<std::uint8_t> bytes(int id) { return {std::uint8_t(id), std::uint8_t(id ^ 0x5a)}; }
    // returns whether it was answered with its own reply
    bool wait_reply(int id, bool may_fail)
    {
        std::uint8_t r[kMax]; auto b = bytes(id);
        auto x = c->SendWaitReply(b, {r, kMax});
        if (x.has_value()) { MC_CHECK(x->size() == 2 && r[0] == id && r[1] == (0x80 | id), "a request is answered with the reply to another one"); return true; }
        MC_CHECK(may_fail, "a request fails without a reason, error " << x.error().GetOsDependentErrorCode());
        return false;
    }
    struct Asked { int calls{0}; bool accepted{false}, ok{false}; };
    void ask(Asked& a, int id, bool may_fail)
    {
        auto b = bytes(id);
        auto x = c->SendWithCallback(b, [this, &a, id](Answer r) {
            mc::ghost(this); MC_CHECK(!gone, "a request is answered after the connection was destroyed"); MC_CHECK(++a.calls == 1, "a request is answered twice");
            if (r.has_value()) { a.ok = true; MC_CHECK(r->size() == 2 && (*r)[0] == id, "a request is answered with the reply to another one"); } });
        mc::ghost(this); a.accepted = x.has_value();
        MC_CHECK(a.accepted || may_fail, "a request is refused without a reason, error " << x.error().GetOsDependentErrorCode());
    }
    void done(Asked& a) { mc::ghost(this); MC_CHECK(a.calls == (a.accepted ? 1 : 0), "a request that was " << (a.accepted ? "accepted" : "refused") << " is answered " << a.calls << " times"); }
    bool send(int id, bool may_fail) { auto b = bytes(id); auto x = c->Send(b); MC_CHECK(x.has_value() || may_fail, "a message is refused without a reason, error " << x.error().GetOsDependentErrorCode()); return x.has_value(); }
    void finish(bool destructor_stops = false)
    {
        if (!destructor_stops) { stop(); mc::block_until([this] { return now == State::kStopped; }, "connection stops"); mc::ghost(this); }
        else { mc::ghost(this); stop_called = true; }
        { std::optional<mc::NoPreempt> n; if (!destructor_stops) n.emplace(); const void* owner = &*c; c.reset(); mc::ghost(e.get()); for (auto& x : e->outstanding) MC_CHECK(x.second.second != owner, "a destroyed connection leaves a command behind"); e->outstanding.clear(); }
        { mc::ghost(this); gone = true; quit = true; }
        { mc::ghost(e.get()); }
        MC_CHECK(now == State::kStopped, "the connection is destroyed before Stopped was reported");
        MC_CHECK(e->open == 0 && e->ep.empty(), "a destroyed connection leaves its descriptor or endpoint");
        mc::join(engine_tid);
    }
};
enum Scene { OneWaits, TwoWait, WaitAndAsk, WaitAndSend, AskAndSend, WaitVsStop, AskVsStop, WaitVsClose, TwoWaitVsClose, StartVsStop, Destructor, WaitFails };
void scene(const char* name, mc::Config cfg, Cfg k, Scene sc)
{
    mc::explore(name, cfg, [=] {
        World w(k); World::Asked a, b; int t = -1; bool s1 = false;
        w.start();
        if (sc == StartVsStop) { w.finish(); return; }
        if (sc == Destructor) { w.finish(true); return; }
        w.ready();
        switch (sc)
        {
            case OneWaits: w.wait_reply(1, false); break;
            case TwoWait: t = mc::spawn([&] { w.wait_reply(2, false); }, "second user"); w.wait_reply(1, false); break;
            case WaitAndAsk: t = mc::spawn([&] { w.ask(a, 2, false); }, "second user"); w.wait_reply(1, false); break;
            case WaitAndSend: t = mc::spawn([&] { w.send(2, false); }, "second user"); w.wait_reply(1, false); break;
            case AskAndSend: t = mc::spawn([&] { s1 = w.send(3, false); }, "second user"); w.ask(a, 1, false); break;
            case WaitVsStop: t = mc::spawn([&] { w.stop(); }, "second user"); w.wait_reply(1, true); break;
            case AskVsStop: t = mc::spawn([&] { w.stop(); }, "second user"); w.ask(a, 1, true); w.ask(b, 2, true); break;
            case WaitVsClose: t = mc::spawn([&] { w.peer_closes(); }, "peer"); w.wait_reply(1, true); break;
            case TwoWaitVsClose: t = mc::spawn([&] { w.wait_reply(2, true); }, "second user"); w.peer_closes(); w.wait_reply(1, true); break;
            case WaitFails: { mc::ghost(w.e.get()); w.e->fail_next = true; } t = mc::spawn([&] { w.ask(a, 2, true); }, "second user"); w.wait_reply(1, true); break;
            default: break;
        }
        if (t >= 0) mc::join(t);
        w.finish();
        w.done(a); w.done(b);
    });
}
}

MC_CASE(P01, plain) { histories("neither ordered nor asynchronous", {false, false, false, 1, 1}, mc::tier(6, 8)); }
MC_CASE(P01, ordered) { histories("ordered", {true, false, false, 1, 1}, mc::tier(6, 8)); }
MC_CASE(P01, async) { histories("asynchronous", {false, true, false, 1, 1}, mc::tier(6, 8)); }
MC_CASE(P01, sync) { histories("connecting synchronously", {true, false, true, 0, 0}, mc::tier(6, 8)); }
MC_CASE(P01, ready_plain) { histories("ready, neither ordered nor asynchronous", {false, false, false, 1, 1}, mc::tier(5, 7), true); }
MC_CASE(P01, ready_ordered) { histories("ready, ordered", {true, false, false, 1, 1}, mc::tier(5, 7), true); }
MC_CASE(P01, ready_async) { histories("ready, asynchronous", {true, true, false, 1, 1}, mc::tier(5, 7), true); }
MC_CASE(P01, threads)
{
    const Cfg plain{false, false, false, 1, 1}, ordered{true, false, false, 1, 1}, async{false, true, false, 1, 1};
    const mc::Config c{mc::tier(4, 6)};
    scene("one user waits", c, plain, OneWaits);
    scene("two users wait", c, ordered, TwoWait);
    scene("a user waits, another asks", c, async, WaitAndAsk);
    scene("a user waits, another sends", c, ordered, WaitAndSend);
    scene("a user asks, another sends", c, async, AskAndSend);
    scene("a user waits while another stops", c, plain, WaitVsStop);
    scene("a user asks while another stops", c, ordered, AskVsStop);
    scene("a user asks asynchronously while another stops", c, async, AskVsStop);
    scene("a user waits while the peer closes", c, plain, WaitVsClose);
    scene("two users wait while the peer closes", c, ordered, TwoWaitVsClose);
    scene("a waiting user's message fails", c, ordered, WaitFails);
    scene("start and stop", c, plain, StartVsStop);
    scene("destruction at any time", c, plain, Destructor);
}
