// A01: who can reach the memory and the methods of a service, for every combination of the permission settings.
#include "mc.h"
#include "stack.h"
#include <set>
namespace
{
using namespace stack;
using Uids = std::vector<uid_t>;
template <class T> struct Svc : T::Base
{
    using T::Base::Base;
    typename T::template Event<std::uint64_t> ev{*this, "ev"}, ew{*this, "ew"};
};
template <class T> struct Calc : T::Base
{
    using T::Base::Base;
    typename T::template Method<std::uint32_t(std::uint32_t, std::uint8_t)> m{*this, "m"};
    typename T::template Method<void(std::uint16_t)> n{*this, "n"};
};
using Skel = impl::SkeletonWrapperClass<Svc>; using Prox = impl::ProxyWrapperClass<Svc>;
using CSkel = impl::SkeletonWrapperClass<Calc>; using CProx = impl::ProxyWrapperClass<Calc>;
constexpr uid_t kProvider = 2000, kConsumer = 1000;

// absent, empty, one, another, both
std::optional<Uids> list(const char* what, uid_t a, uid_t b)
{
    switch (mc::choose(5, what)) { case 0: return std::nullopt; case 1: return Uids{}; case 2: return Uids{a}; case 3: return Uids{b}; default: return Uids{b, a}; }
}
std::string str(const std::optional<Uids>& l) { if (!l) return "absent"; std::string r = "["; for (auto u : *l) r += (r.size() > 1 ? "," : "") + std::to_string(u); return r + "]"; }
bool has(const std::optional<Uids>& l, uid_t u) { return l && std::find(l->begin(), l->end(), u) != l->end(); }
fos::Inode* object(Stack& s, const std::string& path) { auto i = s.os.k.names.find("S" + path); return i == s.os.k.names.end() ? nullptr : i->second.get(); }

bool writes(const fos::Inode& i, unsigned u) { if (i.uid != u) { auto a = i.acl.find(u); if (a != i.acl.end()) return a->second & 2u; } return (i.mode >> (i.uid == u ? 6 : 0)) & 2u; }

MC_CASE(A01, memory)
{
    mc::explore("memory of an offered service", mc::Config{0}, [] {
        Plan p; p.slots = 1; p.asil_b = true; p.strict = mc::choose(2, "strict");
        const auto qm = list("QM consumers", 200, 201), b = list("ASIL-B consumers", 300, 200);
        if (qm) p.consumers[QualityType::kASIL_QM] = *qm;
        if (b) p.consumers[QualityType::kASIL_B] = *b;
        const std::string set = std::string(p.strict ? "strict" : "not strict") + ", QM " + str(qm) + ", ASIL-B " + str(b);
        mc::log(set);
        Stack s(p); s.os.k.default_uid = kProvider;
        auto sk = std::make_unique<Skel>(std::move(Skel::Create(s.provided()).value()));
        const lola::ShmPathBuilder path{7};
        const bool all_qm = !p.strict && (!qm || qm->empty()), all_b = !p.strict && (!b || b->empty());
        for (int round = 0; round < 2; ++round)
        {
            MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered (" << set << ")");
            auto *data = object(s, path.GetDataChannelShmName(5)), *cq = object(s, path.GetControlChannelShmName(5, QualityType::kASIL_QM)), *cb = object(s, path.GetControlChannelShmName(5, QualityType::kASIL_B));
            if (!data || !cq || !cb) { mc::violation("an offered service has no memory"); return; }
            for (uid_t u : {uid_t(200), uid_t(201), uid_t(300), uid_t(400), kProvider})
            {
                const bool own = u == kProvider, any = has(qm, u) || has(b, u);
                struct { const char* what; fos::Inode* i; bool r, w; } want[] = {
                    {"the samples", data, own || any || (all_qm && all_b), own},
                    {"the QM control data", cq, own || has(qm, u) || all_qm, own || has(qm, u) || all_qm},
                    {"the ASIL-B control data", cb, own || has(b, u) || all_b, own || has(b, u) || all_b}};
                for (auto& x : want)
                {
                    const bool r = fos::may(*x.i, u, false), w = writes(*x.i, u);
                    MC_CHECK(r == x.r, "user " << u << (r ? " can" : " cannot") << " read " << x.what << " (" << set << ")");
                    MC_CHECK(w == x.w, "user " << u << (w ? " can" : " cannot") << " write " << x.what << " (" << set << ")");
                }
            }
            sk->StopOfferService();
        }
        sk.reset();
    });
}
// Which providers a consumer accepts.
MC_CASE(A01, providers)
{
    mc::explore("providers a consumer accepts", mc::Config{0}, [] {
        Plan p; p.slots = 1; p.asil_b = true;
        Stack s(p);
        Plan c = p; c.strict = mc::choose(2, "strict"); const bool at_b = mc::choose(2, "quality");
        const auto qm = list("QM providers", 2000, 2001), b = list("ASIL-B providers", 2000, 2001);
        if (qm) c.providers[QualityType::kASIL_QM] = *qm;
        if (b) c.providers[QualityType::kASIL_B] = *b;
        Deployment d(c);
        s.os.k.default_uid = kProvider;
        auto sk = std::make_unique<Skel>(std::move(Skel::Create(s.provided()).value()));
        MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered");
        s.os.k.default_uid = kConsumer;
        const auto& l = at_b ? b : qm; const bool want = l ? has(l, kProvider) : !c.strict;
        {
            auto r = Prox::Create(impl::make_HandleType(d.id(at_b)));
            MC_CHECK(r.has_value() == want, "a provider " << (r.has_value() ? "is accepted" : "is refused") << " (" << (c.strict ? "strict" : "not strict") << ", " << (at_b ? "ASIL-B" : "QM") << " providers " << str(l) << ")");
            if (r.has_value()) { auto px = std::make_unique<Prox>(std::move(r).value()); s.os.k.default_uid = kConsumer; px.reset(); }
        }
        s.os.k.default_uid = kProvider;
        sk->StopOfferService(); sk.reset();
    });
}
// Who may subscribe to methods and call them, and who can reach the memory of the calls.
MC_CASE(A01, methods)
{
    mc::explore("methods of an offered service", mc::Config{0}, [] {
        Plan p; p.slots = 1; p.asil_b = true; p.methods = true; p.strict = mc::choose(2, "strict");
        const auto qm = list("QM consumers", kConsumer, 201), b = list("ASIL-B consumers", kConsumer, 201);
        if (qm) p.consumers[QualityType::kASIL_QM] = *qm;
        if (b) p.consumers[QualityType::kASIL_B] = *b;
        for (auto q : {QualityType::kASIL_QM, QualityType::kASIL_B}) p.providers[q] = {kProvider};
        const std::string set = std::string(p.strict ? "strict" : "not strict") + ", QM " + str(qm) + ", ASIL-B " + str(b);
        Stack s(p); s.os.k.default_uid = kProvider;
        auto sk = std::make_unique<CSkel>(std::move(CSkel::Create(s.provided()).value()));
        MC_CHECK(sk->m.RegisterHandler([](std::uint32_t& r, const std::uint32_t& a, const std::uint8_t& x) { r = a + x; }).has_value() && sk->n.RegisterHandler([](const std::uint16_t&) {}).has_value(), "registering a handler fails");
        MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered");
        for (bool at_b : {false, true})
        {
            const auto& l = at_b ? b : qm;
            auto a = s.bus.allowed.find(Bus::k(at_b ? QualityType::kASIL_B : QualityType::kASIL_QM, lola::SkeletonInstanceIdentifier{7, 5}));
            if (a == s.bus.allowed.end()) { mc::violation("an offered service cannot be subscribed to"); continue; }
            for (uid_t u : {kConsumer, uid_t(201), uid_t(400)})
            {
                const bool may = !a->second.has_value() || a->second->count(u) != 0;
                if (l && l->empty() && !p.strict) continue;   // the memory is open to everyone then, the methods are left open here
                MC_CHECK(may == (l ? has(l, u) : !p.strict), "user " << u << (may ? " may" : " may not") << " subscribe to methods at " << (at_b ? "ASIL-B" : "QM") << " (" << set << ")");
            }
        }
        // a consumer that got through: its calls are known to come from it, and their memory is shared with the provider only
        const bool at_b = mc::choose(2, "quality");
        const auto& l = at_b ? b : qm;
        if (l ? !has(l, kConsumer) : p.strict) { sk->StopOfferService(); sk.reset(); return; }
        s.os.k.default_uid = kConsumer; s.bus.client_uid = kConsumer; s.bus.client_pid = 77;
        {
            auto r = CProx::Create(s.handle(at_b));
            if (!r.has_value()) { mc::violation("a permitted consumer cannot use the service"); return; }
            auto px = std::make_unique<CProx>(std::move(r).value());
            MC_CHECK(s.bus.calls.size() == 2, "the methods are not ready");
            for (auto& x : s.bus.caller) MC_CHECK(x.second == kConsumer, "calls of another user (" << x.second << ") are accepted");
            int n = 0;
            for (auto& f : s.os.k.names)
                if (f.first[0] == 'S' && f.first.find("methods") != std::string::npos)
                {
                    ++n; auto* i = f.second.get();
                    for (uid_t u : {kProvider, kConsumer}) MC_CHECK(fos::may(*i, u, true), "user " << u << " cannot reach the memory of its calls");
                    for (uid_t u : {uid_t(201), uid_t(400)}) MC_CHECK(!fos::may(*i, u, false) && !writes(*i, u), "user " << u << " can reach the memory of another user's calls");
                }
            MC_CHECK(n == 1, "the consumer's calls have " << n << " memory objects");
            px.reset();
        }
        s.os.k.default_uid = kProvider; sk->StopOfferService(); sk.reset();
    });
    // Memory somebody else put where a consumer's calls are expected.
    mc::explore("memory of calls made by another user", mc::Config{0}, [] {
        Plan p; p.slots = 1; p.methods = true; Stack s(p); s.os.k.default_uid = kProvider;
        auto sk = std::make_unique<CSkel>(std::move(CSkel::Create(s.provided()).value()));
        MC_CHECK(sk->m.RegisterHandler([](std::uint32_t& r, const std::uint32_t&, const std::uint8_t&) { r = 1; }).has_value() && sk->n.RegisterHandler([](const std::uint16_t&) {}).has_value() && sk->OfferService().has_value(), "the service cannot be offered");
        const uid_t maker = mc::choose(2, "maker") ? 201 : kConsumer, sub = mc::choose(2, "subscriber") ? 201 : kConsumer;
        const lola::ProxyInstanceIdentifier id{impl::GlobalConfiguration::ApplicationId(40U), 0};
        s.os.k.default_uid = maker;
        auto mem = score::memory::shared::SharedMemoryFactory::Create(lola::ShmPathBuilder{7}.GetMethodChannelShmName(5, id), [](std::shared_ptr<score::memory::shared::ManagedMemoryResource> m) { (void)m->construct<lola::MethodData>(0U, *m); }, 2000U, score::memory::shared::SharedMemoryFactory::WorldWritable{});
        MC_CHECK(mem != nullptr, "no shared memory");
        s.os.k.default_uid = kProvider; s.bus.client_uid = sub; s.bus.client_pid = 77;
        auto r = s.bus.SubscribeServiceMethod(QualityType::kASIL_QM, lola::SkeletonInstanceIdentifier{7, 5}, id, 1000);
        MC_CHECK(r.has_value() == (maker == sub), "the provider " << (r.has_value() ? "takes" : "refuses") << " memory made by user " << maker << " for the calls of user " << sub);
        sk->StopOfferService(); sk.reset(); s.os.k.default_uid = maker;
    });
}
}  // namespace
