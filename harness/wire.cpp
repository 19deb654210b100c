// G01: the messages between two gateways, their framing on a stream and the transport that carries them.
#include "mc.h"
#include "score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h"
#include "score/mw/com/gateway/transport_layer/sample/message_framer.h"
#include "score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h"
#include "score/mw/com/gateway/transport_layer/sample/messages/serialization.h"
#include "score/mw/com/gateway/transport_layer/sample/pending_request_tracker.h"
#include "score/mw/com/gateway/transport_layer/sample/sample_hypervisor_transport.h"
#include "score/mw/com/gateway/transport_layer/transport_error.h"
#include "score/os/socket.h"
#include "score/os/unistd.h"
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace
{
namespace gw = score::mw::com::gateway;
namespace impl = score::mw::com::impl;
using score::os::Error;
using score::mw::com::EventInfo;
using score::mw::com::DataTypeMetaInfo;
using score::mw::com::InstanceSpecifier;
using impl::ServiceElementType;
using Bytes = std::vector<std::uint8_t>;
using Msg = std::unique_ptr<gw::TransportMessage>;
InstanceSpecifier spec(const std::string& s) { return InstanceSpecifier::Create(std::string{s}).value(); }
auto err(int e) { return score::cpp::make_unexpected(Error::createFromErrno(e)); }

// A buffer with an inaccessible page before and after it.
struct Guard
{
    static constexpr std::size_t kPage = 4096, kPages = 20; std::uint8_t* base;
    Guard() : base(static_cast<std::uint8_t*>(::mmap(nullptr, kPage * (kPages + 2), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0))) { ::mprotect(base + kPage, kPage * kPages, PROT_READ | PROT_WRITE); }
    ~Guard() { ::munmap(base, kPage * (kPages + 2)); }
    std::uint8_t* at_end(std::size_t n) { return base + kPage * (kPages + 1) - n; }
    std::uint8_t* at_start() { return base + kPage; }
    score::cpp::span<const std::uint8_t> copy(const Bytes& b, bool end) { auto* p = end ? at_end(b.size()) : at_start(); if (!b.empty()) std::memcpy(p, b.data(), b.size()); return {p, b.size()}; }
};

// What a message says, independently of the classes under test.
struct Element { std::string name; std::size_t size, align; };
struct Content
{
    gw::MessageType type{gw::MessageType::kInvalid}; std::string inst; std::vector<Element> elements; std::uint32_t a{0}, b{0}; ServiceElementType kind{ServiceElementType::INVALID}; std::string name;
    std::string str() const
    {
        std::ostringstream o; o << int(type) << " " << inst << " " << name << " " << int(kind) << " " << a << " " << b;
        for (auto& e : elements) o << " (" << e.name << " " << e.size << " " << e.align << ")";
        return o.str();
    }
};
// The names are kept in storage that is gone (and overwritten) when the message is read.
Msg make(const Content& c)
{
    using T = gw::MessageType;
    switch (c.type)
    {
        case T::kProvideServiceRequest:
        {
            std::vector<std::string> names; for (auto& e : c.elements) names.push_back(e.name);
            std::vector<EventInfo> v; for (std::size_t i = 0; i < names.size(); ++i) v.push_back({names[i], {c.elements[i].size, c.elements[i].align}});
            auto m = std::make_unique<gw::ProvideServiceRequest>(spec(c.inst), v, c.a, c.b);
            for (auto& n : names) std::fill(n.begin(), n.end(), '#');
            return m;
        }
        case T::kOfferServiceRequest: return std::make_unique<gw::OfferServiceRequest>(spec(c.inst));
        case T::kStopOfferServiceRequest: return std::make_unique<gw::StopOfferServiceRequest>(spec(c.inst));
        case T::kRegisterNotificationRequest: return std::make_unique<gw::RegisterNotificationRequest>(spec(c.inst), c.kind, c.name);
        case T::kUnregisterNotificationRequest: return std::make_unique<gw::UnregisterNotificationRequest>(spec(c.inst), c.kind, c.name);
        case T::kUpdateNotification: return std::make_unique<gw::UpdateNotification>(spec(c.inst), c.kind, c.name);
        case T::kAckResponse: return std::make_unique<gw::AckResponse>(c.a);
        default: return nullptr;
    }
}
Content content(const gw::TransportMessage& m)
{
    Content c; c.type = m.GetType();
    if (auto* p = dynamic_cast<const gw::ProvideServiceRequest*>(&m)) { c.inst = p->GetInstanceSpecifier(); c.a = p->GetShmControlSize(); c.b = p->GetShmDataSize(); for (auto& e : p->GetServiceElements()) c.elements.push_back({std::string(e.name), e.data_type_meta_info.size, e.data_type_meta_info.alignment}); }
    else if (auto* o = dynamic_cast<const gw::OfferServiceRequest*>(&m)) c.inst = o->GetInstanceSpecifier();
    else if (auto* s = dynamic_cast<const gw::StopOfferServiceRequest*>(&m)) c.inst = s->GetInstanceSpecifier();
    else if (auto* n = dynamic_cast<const gw::ServiceElementMessage*>(&m)) { c.inst = n->GetInstanceSpecifier(); c.kind = n->GetElementType(); c.name = n->GetElementName(); }
    else if (auto* a = dynamic_cast<const gw::AckResponse*>(&m)) c.a = a->GetAckedSequence();
    return c;
}
Bytes encode(const gw::TransportMessage& m, std::size_t room = 1024) { Bytes b(room); const auto n = m.Serialize({b.data(), b.size()}); b.resize(n); return b; }
const gw::MessageType kTypes[] = {gw::MessageType::kProvideServiceRequest, gw::MessageType::kOfferServiceRequest, gw::MessageType::kStopOfferServiceRequest, gw::MessageType::kRegisterNotificationRequest, gw::MessageType::kUnregisterNotificationRequest, gw::MessageType::kUpdateNotification, gw::MessageType::kAckResponse};
const std::string kInst[] = {"s", "abc/def_1", std::string(15, 'q'), std::string(16, 'r'), std::string(300, 'x') + "/y"};
const std::string kNames[] = {"e", "event", std::string(15, 'm'), std::string(16, 'n'), std::string(200, 'o')};
const std::uint32_t kNum[] = {0, 1, 0x0100, 0x00FF00FF, 0xFFFFFFFFu};
const ServiceElementType kKind[] = {ServiceElementType::INVALID, ServiceElementType::EVENT, ServiceElementType::FIELD};

Content pick(gw::MessageType t)
{
    Content c; c.type = t;
    if (t == gw::MessageType::kAckResponse) { c.a = kNum[mc::choose(5, "sequence")]; return c; }
    c.inst = kInst[mc::choose(5, "instance")];
    if (t == gw::MessageType::kProvideServiceRequest)
    {
        const int n = mc::choose(4, "number of elements");
        for (int i = 0; i < n; ++i) { const int k = mc::choose(5, "element"); c.elements.push_back({kNames[k], std::size_t(1) << (k * 9), std::size_t(1) << k}); }
        c.a = kNum[mc::choose(5, "control size")]; c.b = kNum[(mc::choose(2, "data size") + 2) % 5];
    }
    else if (t != gw::MessageType::kOfferServiceRequest && t != gw::MessageType::kStopOfferServiceRequest) { c.kind = kKind[mc::choose(3, "kind")]; c.name = kNames[mc::choose(5, "name")]; }
    return c;
}

MC_CASE(G01, messages)
{
    mc::explore("messages: encoding, every truncation, every room", {}, [] {
        Guard g; const Content c = pick(kTypes[mc::choose(7, "type")]);
        Bytes b;
        { auto m = make(c); auto m2 = make(c); MC_CHECK(content(*m).str() == c.str(), "a message holds " << content(*m).str() << " instead of " << c.str()); b = encode(*m, 4096); MC_CHECK(encode(*m2, 4096) == b, "messages of the same content are encoded differently"); }
        MC_CHECK(!b.empty(), "a message cannot be encoded");
        for (bool end : {true, false})
        {
            auto m = gw::MessageFramer::CreateMessageForType(c.type); MC_CHECK(m && m->Deserialize(g.copy(b, end)), "an encoded message is refused");
            std::memset(g.at_start(), 0xEE, Guard::kPage * Guard::kPages);
            MC_CHECK(content(*m).str() == c.str(), "'" << c.str() << "' is decoded as '" << content(*m).str() << "'");
            // used again for another message
            auto other = make({c.type, "zz", {{"k", 1, 1}}, 77, 78, ServiceElementType::EVENT, "w"}); auto ob = encode(*other);
            MC_CHECK(m->Deserialize(g.copy(ob, end)) && content(*m).str() == content(*other).str(), "a message object used again keeps something of the earlier message");
        }
        for (std::size_t n = 0; n < b.size(); ++n)
            for (bool end : {true, false})
            {
                if (n == 0 && !end) continue;
                auto m = gw::MessageFramer::CreateMessageForType(c.type);
                MC_CHECK(!m->Deserialize(g.copy(Bytes(b.begin(), b.begin() + n), end)), "a message cut off after " << n << " of " << b.size() << " bytes is accepted");
            }
        auto m = make(c);
        for (std::size_t n = 0; n <= b.size() + 1; ++n)
        {
            auto* p = g.at_end(n); if (n) std::memset(p, 0xAA, n); else p = g.at_end(0);
            const auto used = m->Serialize({p, n});
            MC_CHECK(used == (n >= b.size() ? b.size() : 0), "a message of " << b.size() << " bytes takes " << used << " bytes in a buffer of " << n);
            if (used == b.size()) { MC_CHECK(std::memcmp(p, b.data(), used) == 0, "a message is encoded differently in another buffer"); for (auto k = used; k < n; ++k) MC_CHECK(p[k] == 0xAA, "bytes behind the message are changed"); }
        }
    });
    mc::explore("messages: every change of one byte", {}, [] {
        Guard g; Content c; c.type = kTypes[mc::choose(7, "type")]; const int v = mc::choose(mc::tier(2, 3), "variant");
        c.a = 0x01020304; c.b = 0x05060708; c.kind = ServiceElementType::EVENT; c.inst = v ? "abc" : "s/t"; c.name = v ? "n" : "name";
        if (c.type == gw::MessageType::kAckResponse) c.inst = "", c.kind = ServiceElementType::INVALID, c.name = "";
        for (int i = 0; i < v + 1; ++i) c.elements.push_back({v ? "e" : "event", 8, 8});
        const Bytes b = encode(*make(c));
        for (std::size_t at = 0; at < b.size(); ++at)
            for (int x = 0; x < 256; ++x)
            {
                Bytes d = b; d[at] = std::uint8_t(x);
                auto m = gw::MessageFramer::CreateMessageForType(c.type);
                if (!m->Deserialize(g.copy(d, true))) { MC_CHECK(d != b, "an unchanged message is refused"); continue; }
                std::memset(g.at_start(), 0xEE, Guard::kPage * Guard::kPages);
                content(*m).str();
                const Bytes e = encode(*m, 8192);
                MC_CHECK(e.size() <= d.size() && std::equal(e.begin(), e.end(), d.begin()), "a message with byte " << at << " changed to " << x << " is decoded to something else than it says");
            }
    });
}

// Vectors, strings and numbers in any nesting.
struct Nest
{
    std::vector<std::string> s; std::uint16_t n{0}; std::vector<std::vector<std::uint8_t>> v;
    auto GetSerializeMembers() const { return std::tie(s, n, v); }
    auto GetSerializeMembers() { return std::tie(s, n, v); }
    bool operator==(const Nest& o) const { return s == o.s && n == o.n && v == o.v; }
};
MC_CASE(G01, serialization)
{
    mc::explore("serialisation of nested values", {}, [] {
        Guard g; Nest x;
        static const std::string str[] = {"a", "bc", std::string(20, 'z')};
        for (int n = mc::choose(4, "strings"); n > 0; --n) x.s.push_back(str[mc::choose(3, "string")]);
        x.n = mc::choose(2, "number") ? 0xA55A : 0;
        for (int n = mc::choose(3, "vectors"); n > 0; --n) { x.v.emplace_back(); for (int k = mc::choose(3, "bytes"); k > 0; --k) x.v.back().push_back(std::uint8_t(k * 85)); }
        const std::size_t size = gw::ComputeSerializedSize(x);
        for (std::size_t room = 0; room <= size + 2; ++room)
        {
            auto* p = reinterpret_cast<std::byte*>(g.at_end(room));
            auto r = gw::Serialize(x, score::cpp::span<std::byte>(p, room));
            MC_CHECK(r.has_value() == (room >= size), "a value of " << size << " bytes in a buffer of " << room << (r.has_value() ? " is encoded" : " is refused"));
            if (!r.has_value()) continue;
            MC_CHECK(r.value() == size, "the size calculated differs from the size used");
            Bytes b(size); std::memcpy(b.data(), p, size);
            for (std::size_t n = 0; n <= size; ++n)
            {
                std::memcpy(g.at_end(n), b.data(), n);
                Nest y; auto d = gw::Deserialize(y, score::cpp::span<const std::byte>(reinterpret_cast<std::byte*>(g.at_end(n)), n));
                MC_CHECK(d.has_value() == (n == size), "a value is decoded from " << n << " of its " << size << " bytes" << (d.has_value() ? "" : " not"));
                if (d.has_value()) MC_CHECK(d.value() == size && y == x, "a value is decoded to another");
            }
        }
    });
    mc::explore("sizes of sequences", {}, [] {
        static const std::size_t sizes[] = {0, 1, 255, 256, 65534, 65535, 65536, 65537};
        const std::size_t n = sizes[mc::choose(8, "elements")]; const bool big = mc::choose(2, "element");
        std::vector<std::byte> room(300000); std::uint32_t used = 0; bool ok = false, same = false;
        if (big) { std::vector<std::uint32_t> v(n), w; for (std::size_t i = 0; i < n; ++i) v[i] = std::uint32_t(i * 2654435761u); auto r = gw::Serialize(v, {room.data(), room.size()}); ok = r.has_value(); if (ok) { used = r.value(); auto d = gw::Deserialize(w, {room.data(), used}); same = d.has_value() && d.value() == used && v == w; } }
        else { std::vector<std::string> v(n), w; for (std::size_t i = 0; i < n; ++i) v[i] = std::string(1 + i % 3, char('a' + i % 26)); auto r = gw::Serialize(v, {room.data(), room.size()}); ok = r.has_value(); if (ok) { used = r.value(); auto d = gw::Deserialize(w, {room.data(), used}); same = d.has_value() && d.value() == used && v == w; } }
        MC_CHECK(ok == (n <= 65535), "a sequence of " << n << " elements is " << (ok ? "encoded" : "refused"));
        if (ok) MC_CHECK(same, "a sequence of " << n << " elements is decoded to another");
    });
}

// A stream on which every call moves as many bytes as the exploration says.
struct Stream final : score::os::Socket
{
    mutable Bytes out; Bytes in; mutable std::size_t pos{0}; mutable std::vector<std::size_t> cuts_out, cuts_in; mutable std::size_t calls_out{0}, calls_in{0}; int fail_out{-1}, fail_in{-1}, fail_errno{EIO};
    Stream() { score::os::ObjectSeam<Socket>::set_testing_instance(*this); }
    ~Stream() { score::os::ObjectSeam<Socket>::restore_instance(); }
    static std::size_t upto(const std::vector<std::size_t>& cuts, std::size_t at, std::size_t n) { for (auto c : cuts) if (c > at && c < at + n) return c - at; return n; }
    score::cpp::expected<ssize_t, Error> sendto(int fd, const void* b, size_t n, MessageFlag, const sockaddr*, socklen_t) const noexcept override
    {
        MC_CHECK(fd == 7, "another descriptor is used"); if (int(calls_out++) == fail_out) return err(fail_errno);
        const auto k = upto(cuts_out, out.size(), n); auto* p = static_cast<const std::uint8_t*>(b); out.insert(out.end(), p, p + k); return ssize_t(k);
    }
    score::cpp::expected<ssize_t, Error> recv(int fd, void* b, size_t n, MessageFlag) const noexcept override
    {
        MC_CHECK(fd == 7, "another descriptor is used"); if (int(calls_in++) == fail_in) return err(fail_errno);
        const auto k = std::min(upto(cuts_in, pos, n), in.size() - pos); if (k) std::memcpy(b, in.data() + pos, k); pos += k; return ssize_t(k);
    }
};
Content small(int t) { Content c; c.type = kTypes[t]; c.inst = "i/j"; c.name = "ev"; c.kind = ServiceElementType::FIELD; c.a = 5; c.b = 6; if (t == 0) c.elements = {{"e1", 4, 4}, {"e22", 16, 8}}; return c; }
MC_CASE(G01, framing)
{
    mc::explore("framing: every way a stream is cut into pieces, every end of it", {}, [] {
        Stream s; gw::MessageFramer f, r; const int t1 = mc::choose(7, "first type"), t2 = mc::choose(7, "second type");
        auto a = make(small(t1)), b = make(small(t2)); a->SetSequenceNumber(0x01020304); b->SetSequenceNumber(0xFFFFFFFF);
        MC_CHECK(f.SendMessage(7, *a).has_value() && f.SendMessage(7, *b).has_value(), "a message is not sent");
        const Bytes whole = s.out; const std::size_t one = 9 + encode(*a).size();
        MC_CHECK(whole.size() == one + 9 + encode(*b).size(), "two messages take " << whole.size() << " bytes on the stream");
        auto got = [&](Msg m, gw::TransportMessage& want, const char* how) { MC_CHECK(m != nullptr, "a message " << how << " is not received"); if (m) MC_CHECK(content(*m).str() == content(want).str() && m->GetSequenceNumber() == want.GetSequenceNumber(), "a message " << how << " is received as another"); };
        // sent in pieces
        for (std::size_t x = 1; x < whole.size(); ++x) for (std::size_t y = x; y < whole.size(); y += mc::tier(3, 1)) { s.out.clear(); s.cuts_out = {x, y}; MC_CHECK(f.SendMessage(7, *a).has_value() && f.SendMessage(7, *b).has_value() && s.out == whole, "a message sent in pieces differs"); }
        // received in pieces
        for (std::size_t x = 1; x < whole.size(); ++x) for (std::size_t y = x; y < whole.size(); y += mc::tier(3, 1)) { s.in = whole; s.pos = 0; s.cuts_in = {x, y}; got(r.ReceiveMessage(7), *a, "in pieces"); got(r.ReceiveMessage(7), *b, "in pieces"); }
        // the stream ends
        s.cuts_in.clear();
        for (std::size_t n = 0; n < whole.size(); ++n) { s.in = Bytes(whole.begin(), whole.begin() + n); s.pos = 0; if (n >= one) got(r.ReceiveMessage(7), *a, "before the end"); MC_CHECK(r.ReceiveMessage(7) == nullptr, "a message that is cut off is received"); }
        // a call fails
        for (int k = 0; k < 4; ++k) { s.in = whole; s.pos = 0; s.calls_in = 0; s.fail_in = k; if (k >= 2) got(r.ReceiveMessage(7), *a, "before the failure"); MC_CHECK(r.ReceiveMessage(7) == nullptr, "a message is received although receiving fails"); }
        s.fail_in = -1;
        for (int k = 0; k < 4; ++k) { s.out.clear(); s.cuts_out.clear(); s.calls_out = 0; s.fail_out = k; const bool ra = f.SendMessage(7, *a).has_value(), rb = k < 2 || f.SendMessage(7, *b).has_value(); MC_CHECK((k < 2 ? !ra : ra) && (k < 2 || !rb), "a message is reported as sent although sending fails"); }
    });
    mc::explore("framing: every change of a byte of the header", {}, [] {
        Stream s; gw::MessageFramer f, r; const int t = mc::choose(7, "type"); auto a = make(small(t)), b = make(small(6)); a->SetSequenceNumber(9); b->SetSequenceNumber(10);
        (void)f.SendMessage(7, *a); const std::size_t one = s.out.size(); (void)f.SendMessage(7, *b); const Bytes whole = s.out;
        const int at = mc::choose(9, "byte");
        for (int x = 0; x < 256; ++x)
        {
            s.in = whole; s.in[at] = std::uint8_t(x); s.in.resize(whole.size() + 70000, 0x41); s.pos = 0;
            std::uint32_t len; std::memcpy(&len, &s.in[5], 4);
            auto m = r.ReceiveMessage(7);
            MC_CHECK(s.pos <= 9 + (len <= 1024 ? len : 0), "receiving a message reads behind its end");
            if (!m) { MC_CHECK(s.in[at] != whole[at], "an unchanged message is refused"); continue; }
            MC_CHECK(m->GetType() == gw::MessageType(s.in[0]) && std::memcmp(&m->GetHeader().sequence, &s.in[1], 4) == 0, "a received message has another type or sequence number");
            MC_CHECK(s.pos == 9 + len, "an accepted message leaves bytes on the stream");
            if (len > 0) { const Bytes e = encode(*m); MC_CHECK(e.size() <= len && std::equal(e.begin(), e.end(), s.in.begin() + 9), "a message is decoded to something else than it says"); }
            if (at >= 1 && at <= 4) { auto n = r.ReceiveMessage(7); MC_CHECK(n && content(*n).str() == content(*b).str() && s.pos == one + 13, "the message behind another one is lost"); }
        }
    });
    mc::explore("framing: sizes around the limit", {}, [] {
        Stream s; gw::MessageFramer f, r; const int over = mc::choose(7, "size") - 3; const bool second = mc::choose(2, "after a large one");
        if (second) { auto big = make({gw::MessageType::kOfferServiceRequest, std::string(900, 'v')}); (void)f.SendMessage(7, *big); s.in = s.out; MC_CHECK(r.ReceiveMessage(7) != nullptr, "a large message is not received"); s.out.clear(); s.in.clear(); s.pos = 0; }
        auto m = make({gw::MessageType::kOfferServiceRequest, std::string(std::size_t(1023 + over), 'q')});
        const bool ok = f.SendMessage(7, *m).has_value();
        MC_CHECK(ok == (over <= 0), "a message of " << 1024 + over << " bytes is " << (ok ? "sent" : "refused"));
        if (!ok) MC_CHECK(s.out.empty(), "a part of a refused message is sent");
        auto n = make(small(3)); MC_CHECK(f.SendMessage(7, *n).has_value(), "a message after a refused one is not sent");
        s.in = s.out; if (ok) { auto x = r.ReceiveMessage(7); MC_CHECK(x && content(*x).str() == content(*m).str(), "a message of the largest size is not received"); }
        auto y = r.ReceiveMessage(7); MC_CHECK(y && content(*y).str() == content(*n).str(), "the message after it is not received");
        // a header that announces more than fits
        s.in.assign(9 + 5000, 0x42); s.pos = 0; s.in[0] = 2; const std::uint32_t len = std::uint32_t(1024 + over); std::memcpy(&s.in[5], &len, 4); s.in[9 + 20] = 0;
        auto z = r.ReceiveMessage(7); MC_CHECK((z != nullptr) == (over <= 0), "a header announcing " << len << " bytes is " << (z ? "accepted" : "refused"));
    });
}

// The book-keeping of requests whose acknowledgement is outstanding.
struct TrackSys final : mc::System
{
    gw::PendingRequestTracker t; std::atomic<bool> connected{true}; std::map<std::uint32_t, bool> want; std::uint32_t next{1};
    enum Op { Next, Reg, Erase = Reg + 3, Reset = Erase + 3, Ack = Reset + 3, Wait = Ack + 3, Link = Wait + 3, kOps };
    static std::string name(int o) { static const char* n[] = {"register", "erase", "reset", "acknowledge", "wait for"}; return o == Next ? "next number" : o == Link ? "connection changes" : std::string(n[(o - 1) / 3]) + " " + std::to_string((o - 1) % 3 + 1); }
    bool apply(int o) override
    {
        const std::uint32_t s = o > 0 ? (o - 1) % 3 + 1 : 0;
        if (o == Next) { if (next > 3) return false; MC_CHECK(t.GetNextSequenceNumber() == next, "a sequence number is skipped or used twice"); ++next; }
        else if (o < Erase) { t.RegisterPendingRequest(s); want[s] = false; }
        else if (o < Reset) { t.ErasePendingRequest(s); want.erase(s); }
        else if (o < Ack) { t.ResetAcknowledgement(s); if (want.count(s)) want[s] = false; }
        else if (o < Wait) { t.Acknowledge(s); if (want.count(s)) want[s] = true; }
        else if (o == Link) { connected = !connected; t.NotifyAll(); }
        else
        {
            const auto before = mc::now_ns(); auto r = t.WaitForAck(s, std::chrono::milliseconds(7), connected);
            if (!want.count(s)) MC_CHECK(!r.has_value() && r.error() == gw::TransportErrorc::kSendFailure, "waiting for an unknown request does not fail");
            else if (want[s]) MC_CHECK(r.has_value(), "an acknowledged request fails");
            else if (!connected) MC_CHECK(!r.has_value() && r.error() == gw::TransportErrorc::kNotConnected, "waiting without a connection does not fail for that reason");
            else MC_CHECK(!r.has_value() && r.error() == gw::TransportErrorc::kTimeout && mc::now_ns() - before >= 7000000, "a request that nobody acknowledged does not time out");
        }
        for (std::uint32_t k = 1; k <= 3; ++k) MC_CHECK(t.HasPendingRequest(k) == (want.count(k) != 0), "a request is pending although it is not, or the other way round");
        return true;
    }
    std::string canon() override { std::string r = std::to_string(next) + (connected ? "c" : "d"); for (auto& w : want) r += std::to_string(w.first) + (w.second ? "a" : "w"); return r; }
};
MC_CASE(G01, tracker)
{
    mc::bfs("pending requests: every history", {30}, TrackSys::kOps, TrackSys::name, [] { return std::unique_ptr<mc::System>(new TrackSys); });
    mc::explore("pending requests: threads", {mc::tier(2, 3), 0, 1, 0, 1}, [] {
        gw::PendingRequestTracker t; std::atomic<bool> connected{true}; const int mode = mc::choose(3, "what happens");   // acknowledge, connection lost, both
        bool acked = false, lost = false; int results = 0;
        std::vector<int> tids; std::set<std::uint32_t> used;
        for (int i = 0; i < 2; ++i) tids.push_back(mc::spawn([&, i] {
            const auto s = t.GetNextSequenceNumber(); { mc::ghost(&used); MC_CHECK(used.insert(s).second, "a sequence number is used twice"); }
            t.RegisterPendingRequest(s); mc::ghost(&results);
            auto r = t.WaitForAck(s, std::chrono::milliseconds(50), connected);
            mc::ghost(&results); ++results;
            if (r.has_value()) MC_CHECK(acked && s == 1, "a request succeeds without an acknowledgement");
            else if (r.error() == gw::TransportErrorc::kNotConnected) MC_CHECK(lost, "a request reports a lost connection without a reason");
            else MC_CHECK(r.error() == gw::TransportErrorc::kTimeout && mc::now_ns() >= 1050000000, "a request fails for another reason");
            t.ErasePendingRequest(s); MC_CHECK(!t.HasPendingRequest(s), "an erased request is pending");
        }));
        tids.push_back(mc::spawn([&] {
            if (mode != 1) { mc::ghost(&results); acked = true; t.Acknowledge(1); t.Acknowledge(99); }
            if (mode != 0) { mc::ghost(&results); lost = true; connected = false; t.NotifyAll(); }
        }));
        for (int x : tids) mc::join(x);
        MC_CHECK(results == 2, "a request is left waiting");
    });
}

// TCP in memory. Every call is one atomic step and a scheduling point; descriptors are never used twice.
struct Tcp final : score::os::Socket, score::os::Unistd
{
    struct End { bool listening{false}, nonblock{false}, closed{false}, eof{false}; int port{0}; std::shared_ptr<End> peer; std::deque<std::uint8_t> in; std::deque<std::shared_ptr<End>> backlog; int made{0}; };
    using P = std::shared_ptr<End>;
    mutable std::map<int, P> fds; mutable int next{1000}; mutable std::map<int, P> ports; mutable bool points{false}, listened{false};
    mutable int sends[2]{0, 0}; int fail_at{-1}, fail_kind{0}, fail_proc{0}; mutable bool failed_send{false};
    int proc0{0};
    static Tcp*& cur() { static Tcp* t = nullptr; return t; }
    Tcp() { cur() = this; score::os::ObjectSeam<Socket>::set_testing_instance(*this); score::os::ObjectSeam<Unistd>::set_testing_instance(*this); }
    ~Tcp() { cur() = nullptr; score::os::ObjectSeam<Socket>::restore_instance(); score::os::ObjectSeam<Unistd>::restore_instance(); }
    void step(const char* w) const { if (points) mc::point(w); mc::ghost(this); }
    P get(int fd) const { auto i = fds.find(fd); return i == fds.end() ? nullptr : i->second; }
    int put(P p) const { fds[next] = std::move(p); return next++; }
    static int port_of(const sockaddr* a) { return ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port); }
    template <class T> using R = score::cpp::expected<T, Error>; using RB = score::cpp::expected_blank<Error>;
    R<std::int32_t> socket(Domain d, std::int32_t t, std::int32_t) const noexcept override { step("socket"); MC_CHECK(d == Domain::kIPv4 && (t & ~SOCK_NONBLOCK) == SOCK_STREAM, "a socket of another kind is made"); auto e = std::make_shared<End>(); e->nonblock = (t & SOCK_NONBLOCK) != 0; e->made = mc::cur_proc(); return put(e); }
    RB setsockopt(int fd, int, int, const void*, socklen_t) const noexcept override { return get(fd) ? RB{} : RB{err(EBADF)}; }
    RB bind(int fd, const sockaddr* a, socklen_t) const noexcept override { step("bind"); auto e = get(fd); if (!e) return err(EBADF); const int p = port_of(a); if (ports.count(p)) return err(EADDRINUSE); e->port = p; ports[p] = e; return {}; }
    RB listen(int fd, int) const noexcept override { step("listen"); auto e = get(fd); if (!e) return err(EBADF); e->listening = listened = true; return {}; }
    P link(P c, int port) const
    {
        auto i = ports.find(port); if (i == ports.end() || !i->second->listening) return nullptr;
        auto s = std::make_shared<End>(); s->made = i->second->made; s->peer = c; c->peer = s; i->second->backlog.push_back(s); return s;
    }
    R<std::int32_t> accept(int fd, sockaddr*, socklen_t*) const noexcept override
    {
        step("accept"); auto e = get(fd); if (!e) return err(EBADF); if (!e->listening) return err(EINVAL);
        MC_CHECK(e->nonblock, "accepting blocks"); if (e->backlog.empty()) return err(EAGAIN);
        auto s = e->backlog.front(); e->backlog.pop_front(); return put(s);
    }
    RB connect(int fd, const sockaddr* a, socklen_t) const noexcept override { step("connect"); auto e = get(fd); if (!e) return err(EBADF); MC_CHECK(reinterpret_cast<const sockaddr_in*>(a)->sin_addr.s_addr == htonl(INADDR_LOOPBACK), "another address is connected to"); return link(e, port_of(a)) ? RB{} : RB{err(ECONNREFUSED)}; }
    R<ssize_t> sendto(int fd, const void* b, size_t n, MessageFlag, const sockaddr*, socklen_t) const noexcept override
    {
        step("send"); if (fd < 0) return err(EBADF); auto e = get(fd); MC_CHECK(e, "data is sent on a descriptor that is closed"); if (!e) return err(EBADF); if (!e->peer) return err(e->eof || e->closed ? EPIPE : ENOTCONN);
        const int who = mc::cur_proc() == proc0 ? 0 : 1; const int call = sends[who]++; auto* p = static_cast<const std::uint8_t*>(b);
        if (who == fail_proc && call == fail_at) { failed_send = true; if (fail_kind == 2 && n > 1) { e->peer->in.insert(e->peer->in.end(), p, p + n / 2); return ssize_t(n / 2); } if (fail_kind < 2) return err(fail_kind ? ENOBUFS : EINTR); }
        if (who == fail_proc && call == fail_at + 1 && fail_kind == 2 && failed_send) return err(ENOBUFS);
        e->peer->in.insert(e->peer->in.end(), p, p + n); return ssize_t(n);
    }
    R<ssize_t> recv(int fd, void* b, size_t n, MessageFlag) const noexcept override
    {
        step("recv"); auto e = get(fd); if (!e) return err(EBADF); MC_CHECK(!e->listening, "receiving from a socket that is not connected");
        mc::block_until([e] { return !e->in.empty() || e->eof || e->closed; }, "recv"); mc::ghost(this);
        std::size_t k = 0; for (; k < n && !e->in.empty(); ++k) { static_cast<std::uint8_t*>(b)[k] = e->in.front(); e->in.pop_front(); } return ssize_t(k);
    }
    // Both directions end; what was sent before still arrives.
    static void cut(End& e) { e.eof = true; if (e.peer) { e.peer->eof = true; e.peer->peer.reset(); e.peer.reset(); } }
    int shutdown(int fd) const { step("shutdown"); auto e = get(fd); if (e && !e->listening) cut(*e); return 0; }
    RB close(int fd) const noexcept override { step("close"); auto e = get(fd); MC_CHECK(e, "a descriptor is closed twice"); if (!e) return err(EBADF); fds.erase(fd); e->closed = true; cut(*e); for (auto& x : e->backlog) cut(*x); if (e->port) ports.erase(e->port); e->listening = false; return {}; }
};

struct Side
{
    gw::PendingRequestTracker* tracker{nullptr}; std::unique_ptr<gw::BidirectionalTransport> t; int proc{0}; std::vector<std::string> got; score::Result<void> setup{}; bool up{false};
    void make(int mine, int theirs, bool handler = true)
    {
        gw::HyperVisorSocketConfiguration c; c.remote_ip_ = score::os::Ipv4Address{"127.0.0.1"}; c.local_port_ = std::uint16_t(mine); c.remote_port_ = std::uint16_t(theirs); c.request_timeout_ms_ = 100;
        auto p = std::make_unique<gw::PendingRequestTracker>(); tracker = p.get();
        t = std::make_unique<gw::BidirectionalTransport>(c, std::make_unique<gw::MessageFramer>(), std::move(p));
        if (handler) t->SetMessageHandler([this](Msg m) { mc::ghost(&got); got.push_back(content(*m).str()); });
        mc::focus(t.get(), sizeof *t); mc::focus(tracker, sizeof *tracker);
    }
    score::Result<void> request(const std::string& n) { gw::OfferServiceRequest m{spec(n)}; return t->SendRequest(m); }
    score::Result<void> note(const std::string& n) { gw::UpdateNotification m{spec(n), ServiceElementType::EVENT, "e"}; return t->SendNotification(m); }
};
std::string offer_of(const std::string& n) { Content c; c.type = gw::MessageType::kOfferServiceRequest; c.inst = n; return c.str(); }
std::string note_of(const std::string& n) { Content c; c.type = gw::MessageType::kUpdateNotification; c.inst = n; c.kind = ServiceElementType::EVENT; c.name = "e"; return c.str(); }
struct Two
{
    Tcp k; Side a, b;
    explicit Two(bool handler = true)
    {
        mc::Quiet q; a.proc = mc::new_proc(); b.proc = mc::new_proc(); k.proc0 = a.proc;
        const int x = mc::spawn([&] { a.make(1, 2); a.setup = a.t->Setup(); }, "setup", a.proc), y = mc::spawn([&, handler] { b.make(2, 1, handler); b.setup = b.t->Setup(); }, "setup", b.proc);
        mc::join(x); mc::join(y); MC_CHECK(a.setup.has_value() && b.setup.has_value() && a.t->IsConnected() && b.t->IsConnected(), "two transports do not connect");
        k.sends[0] = k.sends[1] = 0;
    }
    static void run(int proc, const std::function<void()>& f) { mc::join(mc::spawn(f, "x", proc)); }
    void drop(Side& s) { run(s.proc, [&] { s.t.reset(); }); }
    void wait_connected() { while (!(a.t->IsConnected() && b.t->IsConnected())) ::usleep(1000); }
    void settle() { ::usleep(10000000); }
};
bool once_each(const std::vector<std::string>& got, std::vector<std::string> want) { return got == want; }

void transport_scene(const char* name, int scene, mc::Config cfg)
{
    mc::explore(name, cfg, [scene] {
        Two w(scene != 4); const bool fault = scene == 3;
        if (fault) { w.k.fail_at = mc::choose(4, "failing call"); w.k.fail_kind = mc::choose(3, "kind of failure"); w.k.fail_proc = mc::choose(2, "whose call"); }
        bool r1 = false, r2 = false, n1 = false, rb = false; std::vector<int> tids;
        w.k.points = true;
        if (scene != 4)
        {
            tids.push_back(mc::spawn([&] { r1 = w.a.request("one").has_value(); if (scene == 0) n1 = w.a.note("two").has_value(); if (scene == 0 || fault) r2 = w.a.request("three").has_value(); }, "user a", w.a.proc));
            if (scene == 0) tids.push_back(mc::spawn([&] { rb = w.b.request("four").has_value(); }, "user b", w.b.proc));
            if (scene == 1) tids.push_back(mc::spawn([&] { w.b.t->Shutdown(); w.b.t.reset(); }, "stop b", w.b.proc));
            if (scene == 2) tids.push_back(mc::spawn([&] { const bool which = mc::choose(2, "connection"); w.k.step("reset"); for (auto& f : w.k.fds) if (f.second->peer && f.second->made == (which ? w.a.proc : w.b.proc)) { Tcp::cut(*f.second); break; } }, "reset", mc::new_proc()));
            for (int t : tids) mc::join(t);
        }
        const std::string one = offer_of("one"), two = note_of("two"), three = offer_of("three"), four = offer_of("four");
        if (scene == 4)
        {
            const auto before = mc::now_ns(); Two::run(w.a.proc, [&] { auto r = w.a.request("one"); MC_CHECK(!r.has_value() && r.error() == gw::TransportErrorc::kTimeout, "a request nobody acknowledges does not time out"); });
            MC_CHECK(w.k.sends[0] == 10, "a request nobody acknowledges is sent " << w.k.sends[0] / 2 << " times instead of five");
            MC_CHECK(mc::now_ns() - before >= 500000000, "a request is repeated before its time");
        }
        w.k.points = false; { mc::ghost(&w.k); }
        mc::Quiet q;
        if (scene == 2 || fault) { w.k.fail_at = -1; w.settle(); w.wait_connected(); MC_CHECK(w.a.request("again").has_value() && w.b.request("back").has_value(), "a request fails on a connection that was established again"); }
        w.settle();
        const auto& g = w.b.got; const std::string again = offer_of("again");
        if (scene == 0)
        {
            MC_CHECK(r1 && n1 && r2 && rb, "a request fails on a connection that works");
            MC_CHECK(once_each(g, {one, two, three}) && once_each(w.a.got, {four}), "messages arrive not once, unchanged and in order");
        }
        for (auto& m : g) MC_CHECK(m == one || m == two || m == three || m == again, "a message arrives that nobody sent: " << m);
        auto count = [&](const std::string& m) { return std::count(g.begin(), g.end(), m); };
        if (scene == 2 || fault)
        {
            MC_CHECK(!r1 || count(one) >= 1, "an acknowledged request does not arrive"); MC_CHECK(!r2 || count(three) >= 1, "an acknowledged request does not arrive");
            MC_CHECK(count(again) == 1 && g.back() == again, "a request arrives " << count(again) << " times after the connection was established again");
            MC_CHECK(w.a.got == std::vector<std::string>{offer_of("back")}, "a request arrives not once in the other direction");
        }
        if (scene == 4) MC_CHECK(g.empty(), "a message is delivered without a handler");
        w.drop(w.a); if (w.b.t) w.drop(w.b);
        mc::join_all();
        MC_CHECK(w.k.fds.empty(), w.k.fds.size() << " descriptors are left open");
    });
}
// One transport is shut down while it is connecting.
void setup_scene(const char* name, mc::Config cfg)
{
    mc::explore(name, cfg, [] {
        Tcp k; Side a; const int peer = mc::choose(3, "the peer"); a.proc = mc::new_proc(); const int pb = mc::new_proc(); k.proc0 = a.proc;   // nobody, listens, listens and connects
        auto l = std::make_shared<Tcp::End>(), c = std::make_shared<Tcp::End>(); l->listening = true; l->made = c->made = pb;
        if (peer >= 1) k.ports[2] = l;
        Two::run(a.proc, [&] { a.make(1, 2); });
        k.points = true;
        const int t = mc::spawn([&] { a.setup = a.t->Setup(); mc::ghost(&a); a.up = true; }, "setup", a.proc);
        const int u = peer == 2 ? mc::spawn([&] { mc::block_until([&] { return k.ports.count(1) && k.ports[1]->listening; }, "listening"); mc::ghost(&k); k.link(c, 1); }, "peer", pb) : -1;
        const int s = mc::spawn([&] { if (mc::choose(2, "when")) { mc::block_until([&] { return k.listened; }, "listening"); mc::ghost(&k); } k.step("shutdown starts"); a.t->Shutdown(); }, "stop", a.proc);
        mc::join(s); if (u >= 0) mc::join(u); mc::join(t);
        mc::Quiet q; k.points = false; { mc::ghost(&k); }
        if (!a.setup.has_value()) MC_CHECK(a.setup.error() == gw::TransportErrorc::kConnectionFailure, "setting up fails for another reason");
        Two::run(a.proc, [&] { for (int i = 0; i < 40; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(100)); });
        MC_CHECK(!a.t->IsConnected(), "a transport is connected after it was shut down");
        Two::run(a.proc, [&] { a.t.reset(); });
        mc::join_all(); MC_CHECK(k.fds.empty(), k.fds.size() << " descriptors are left open");
    });
}
MC_CASE(G01, requests) { transport_scene("transport: requests and notifications in both directions", 0, {mc::tier(1, 2)}); }
MC_CASE(G01, silent) { transport_scene("transport: nobody acknowledges", 4, {0}); }
MC_CASE(G01, peer_stops) { transport_scene("transport: the peer shuts down", 1, {mc::tier(1, 2)}); }
MC_CASE(G01, reset) { transport_scene("transport: a connection breaks", 2, {mc::tier(0, 1)}); }
MC_CASE(G01, send_fault) { transport_scene("transport: sending fails", 3, {0}); }
MC_CASE(G01, setup_stop) { setup_scene("transport: shut down while connecting", {mc::tier(1, 2)}); }
}  // namespace
// The transport uses these two calls directly.
extern "C" int shutdown(int fd, int) { if (Tcp::cur()) return Tcp::cur()->shutdown(fd); return -1; }
extern "C" int fcntl(int fd, int cmd, ...)
{
    va_list v; va_start(v, cmd); long arg = va_arg(v, long); va_end(v);
    if (fd >= 1000) { if (Tcp::cur()) if (auto e = Tcp::cur()->get(fd)) { if (cmd == F_GETFL) return e->nonblock ? O_NONBLOCK : 0; if (cmd == F_SETFL) { e->nonblock = (arg & O_NONBLOCK) != 0; return 0; } } errno = EBADF; return -1; }
    return int(::syscall(SYS_fcntl, fd, cmd, arg));
}
