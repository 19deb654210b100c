// A message transport between simulated processes: one server per name, one FIFO per connection, closed when a side dies.
#ifndef VERIF_NET_H
#define VERIF_NET_H
#include "mc.h"
#include "score/message_passing/i_client_factory.h"
#include "score/message_passing/i_server.h"
#include "score/message_passing/i_server_connection.h"
#include "score/message_passing/i_server_factory.h"
#include <deque>
#include <set>

namespace net
{
namespace mp = score::message_passing;
using Bytes = std::vector<std::uint8_t>;
using State = mp::IClientConnection::State;
using Reason = mp::IClientConnection::StopReason;
struct Client;
struct Server;
struct Net
{
    std::map<std::string, Server*> servers;
    std::vector<Client*> clients;              // in the order of creation
    bool sync{true};                           // a message is handled while its sender sends it
    bool refuse_next{false};                   // the next send fails
    int in_flight{0};
    void step(const char* what) { if (!sync) { mc::point(what); mc::ghost(this); } }
};
struct Conn final : mp::IServerConnection
{
    mp::ClientIdentity id{}; mp::UserData data{}; Bytes reply; bool replied{false}, rejected{false};
    const mp::ClientIdentity& GetClientIdentity() const& noexcept override { return id; }
    mp::UserData& GetUserData() noexcept override { return data; }
    score::cpp::expected_blank<score::os::Error> Reply(score::cpp::span<const std::uint8_t> m) noexcept override { MC_CHECK(!replied, "a request is answered twice"); reply.assign(m.begin(), m.end()); replied = true; return {}; }
    score::cpp::expected_blank<score::os::Error> Notify(score::cpp::span<const std::uint8_t>) noexcept override { return {}; }
    void RequestDisconnect() noexcept override {}
};
struct Server final : mp::IServer
{
    Net& n; std::string name; bool on{false}; int busy{0};
    mp::ConnectCallback connect; mp::DisconnectCallback gone; mp::MessageCallback sent, request;
    Server(Net& net, std::string nm) : n(net), name(std::move(nm)) {}
    ~Server() override { StopListening(); }
    score::cpp::expected_blank<score::os::Error> StartListening(mp::ConnectCallback c, mp::DisconnectCallback d, mp::MessageCallback s, mp::MessageCallback r) noexcept override
    {
        MC_CHECK(!n.servers.count(name), "two servers listen at " << name);
        connect = std::move(c); gone = std::move(d); sent = std::move(s); request = std::move(r); on = true; n.servers[name] = this; return {};
    }
    void StopListening() noexcept override;
};
struct Msg { Bytes b; bool want; };
struct Client final : mp::IClientConnection
{
    Net& n; std::string name; mp::ClientIdentity id; Server* to{nullptr}; State st{State::kStopped}; Reason why{Reason::kInit}; Conn conn; std::deque<Msg> q; bool answered{false}; Bytes answer;
    Client(Net& net, std::string nm, mp::ClientIdentity i) : n(net), name(std::move(nm)), id(i) { n.clients.push_back(this); }
    ~Client() override { Stop(); n.clients.erase(std::find(n.clients.begin(), n.clients.end(), this)); }
    void bind()
    {
        if (st != State::kStarting || to) return;
        auto i = n.servers.find(name);
        if (i == n.servers.end() || !i->second->on) return;
        to = i->second; conn.id = id; auto d = to->connect(conn);
        if (!d.has_value()) { to = nullptr; st = State::kStopped; why = Reason::kClosedByPeer; return; }
        conn.data = std::move(d.value()); st = State::kReady;
    }
    State GetState() const noexcept override { n.step("connection state"); const_cast<Client*>(this)->bind(); return st; }
    Reason GetStopReason() const noexcept override { return why; }
    void Start(mp::IClientConnection::StateCallback, mp::IClientConnection::NotifyCallback) noexcept override { n.step("connect"); st = State::kStarting; why = Reason::kNone; bind(); }
    void close(Reason r) { if (st == State::kStopped) return; if (to) { if (to->gone) to->gone(conn); to = nullptr; } n.in_flight -= int(q.size()); q.clear(); st = State::kStopped; why = r; }
    void Stop() noexcept override { n.step("disconnect"); flush(); close(Reason::kUserRequested); }
    void flush() { if (!n.sync) mc::block_until([this] { return q.empty() || !to; }, "pending sends"); }   // what was accepted is delivered before an orderly end
    void Restart() noexcept override { close(Reason::kUserRequested); st = State::kStarting; bind(); }
    // Handles one message at the server.
    void handle(const Bytes& b, bool want)
    {
        Server* s = to; ++s->busy; conn.replied = false;
        auto r = (want ? s->request : s->sent)(conn, score::cpp::span<const std::uint8_t>{b.data(), b.size()});
        --s->busy;
        MC_CHECK(!want || conn.replied || !r.has_value(), "a request is neither answered nor refused");
        if (want) { answer = conn.reply; answered = conn.replied; }
        if (!r.has_value()) close(Reason::kClosedByPeer);
    }
    bool deliver() { if (q.empty() || !to) return false; mc::ghost(&n); Msg m = std::move(q.front()); handle(m.b, m.want); if (!q.empty()) { q.pop_front(); --n.in_flight; } return true; }
    score::cpp::expected_blank<score::os::Error> Send(score::cpp::span<const std::uint8_t> m) noexcept override
    {
        n.step("send"); bind();
        if (st != State::kReady || n.refuse_next) { n.refuse_next = false; return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE)); }
        Bytes b(m.begin(), m.end());
        if (n.sync) handle(b, false); else { q.push_back({b, false}); ++n.in_flight; }
        return {};
    }
    score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> SendWaitReply(score::cpp::span<const std::uint8_t> m, score::cpp::span<std::uint8_t> out) noexcept override
    {
        n.step("request"); bind();
        if (st != State::kReady) return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
        Bytes b(m.begin(), m.end()); answered = false;
        if (n.sync) handle(b, true); else { q.push_back({b, true}); ++n.in_flight; mc::block_until([this] { return q.empty(); }, "reply"); }
        if (!answered) return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
        std::copy(answer.begin(), answer.begin() + std::min(answer.size(), std::size_t(out.size())), out.data());
        return score::cpp::span<const std::uint8_t>{out.data(), static_cast<decltype(out.size())>(answer.size())};
    }
    score::cpp::expected_blank<score::os::Error> SendWithCallback(score::cpp::span<const std::uint8_t>, mp::IClientConnection::ReplyCallback) noexcept override { return score::cpp::make_unexpected(score::os::Error::createFromErrno(ENOTSUP)); }
};
inline void Server::StopListening() noexcept
{
    if (!on) return;
    n.step("stop listening");
    if (!n.sync) mc::block_until([this] { return busy == 0; }, "running server callback");
    on = false; n.servers.erase(name);
    for (auto* c : n.clients) if (c->to == this) { c->to = nullptr; c->close(Reason::kClosedByPeer); }
}
struct Servers final : mp::IServerFactory
{
    Net& n; explicit Servers(Net& x) : n(x) {}
    score::cpp::pmr::unique_ptr<mp::IServer> Create(const mp::ServiceProtocolConfig& p, const ServerConfig&) noexcept override { return score::cpp::pmr::make_unique<Server>(score::cpp::pmr::get_default_resource(), n, std::string{p.identifier}); }
};
struct Clients final : mp::IClientFactory
{
    Net& n; mp::ClientIdentity id; Clients(Net& x, mp::ClientIdentity i) : n(x), id(i) {}
    score::cpp::pmr::unique_ptr<mp::IClientConnection> Create(const mp::ServiceProtocolConfig& p, const ClientConfig&) noexcept override { return score::cpp::pmr::make_unique<Client>(score::cpp::pmr::get_default_resource(), n, std::string{p.identifier}, id); }
};
}  // namespace net
#endif
