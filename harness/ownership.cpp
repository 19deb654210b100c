// O01: providers, consumers and their elements under every sequence of offering, updating, moving and destroying.
#include "fake_runtime.h"
#include "score/mw/com/impl/flag_owner.h"
#include "score/mw/com/impl/i_service_discovery.h"
#include "score/mw/com/impl/instance_identifier.h"
#include "score/mw/com/impl/handle_type.h"
#include "score/mw/com/impl/proxy_base.h"
#include "score/mw/com/impl/proxy_event.h"
#include "score/mw/com/impl/proxy_field.h"
#include "score/mw/com/impl/methods/proxy_method.h"
#include "score/mw/com/impl/methods/skeleton_method.h"
#include "score/mw/com/impl/skeleton_base.h"
#include "score/mw/com/impl/skeleton_event.h"
#include "score/mw/com/impl/skeleton_field.h"
#include "score/mw/com/impl/service_element_map_view_factory.h"
#include "score/mw/com/impl/traits.h"
#include "score/mw/com/impl/sample_allocatee_tracker.h"
#include "score/mw/com/impl/sample_allocatee_guard.h"
#include <optional>
#include <sstream>

namespace
{
namespace impl = score::mw::com::impl;
using score::Result;
using impl::ComErrc;
using score::MakeUnexpected;

template <class T> struct IF : T::Base
{
    using T::Base::Base;
    typename T::template Event<int> e{*this, "e"};
    typename T::template Field<int, impl::WithNotifier> f{*this, "f"};
    typename T::template Field<int, impl::WithNotifier, impl::WithGetter, impl::WithSetter> g{*this, "g"};
    typename T::template Method<int(int)> m{*this, "m"};
};
using Skel = impl::AsSkeleton<IF>;
using Prox = impl::AsProxy<IF>;

// What a provider or consumer instance looks like from below.
struct Elem
{
    bool prepared{false};
    std::optional<int> value;              // latest value published since the element was prepared
    std::vector<int> sent;
    impl::SkeletonMethodBinding::TypeErasedHandler get, set, call;
    int prepares{0};
    bool subscribed{false};
    std::size_t max{0};
    bool alive{false};
};
struct Inst
{
    int id{0};
    bool alive{true}, prepared{false}, visible{false};
    std::map<std::string, Elem> el;
    Inst() { for (auto n : {"e", "f", "g", "m"}) el[n]; }
    int stops{0};
    // consumer side
    bool deinit_prepared{false}, deinit_done{false};
};
struct Bed  // everything below the classes under test
{
    static Bed*& it() { static Bed* b; return b; }
    std::map<int, std::unique_ptr<Inst>> inst;
    std::string fail;                      // the step that fails next
    bool reoffer{false};                   // also judge the values of fields that are offered again
    std::set<std::pair<int, std::string>> offered_before;
    bool hit(const std::string& s) { if (fail == s) { fail.clear(); return true; } return false; }
    Inst& of(int id) { return *inst.at(id); }
};
#define BED (*Bed::it())
Result<void> bad() { return MakeUnexpected(ComErrc::kBindingFailure); }

struct SkB : impl::SkeletonBinding
{
    Inst& i;
    explicit SkB(Inst& x) : i(x) {}
    ~SkB() override { MC_CHECK(!i.prepared, "a provider is destroyed while its offer is still prepared"); i.alive = false; }
    Result<void> PrepareOffer(SkeletonEventBindings& ev, SkeletonFieldBindings& fi, std::optional<RegisterShmObjectTraceCallback>) override
    {
        MC_CHECK(!i.prepared, "an offer is prepared twice");
        MC_CHECK(ev.size() == 1 && ev.count("e") && fi.size() == 2 && fi.count("f") && fi.count("g"), "an offer does not list the provider's elements");
        if (BED.hit("binding")) return bad();
        i.prepared = true;
        return {};
    }
    void PrepareStopOffer(std::optional<UnregisterShmObjectTraceCallback>) override { MC_CHECK(i.prepared, "an offer is withdrawn twice"); i.prepared = false; ++i.stops; }
    impl::BindingType GetBindingType() const noexcept override { return impl::BindingType::kLoLa; }
    bool VerifyAllMethodHandlersRegistered() const override { return !BED.hit("methods"); }
};
struct SkEv : impl::SkeletonEventBinding<int>
{
    Inst& i; std::string n; Elem& e;
    SkEv(Inst& x, std::string nm) : i(x), n(nm), e(x.el.at(nm)) { e.alive = true; }
    ~SkEv() override { MC_CHECK(!e.prepared, "element " << n << " is destroyed while its offer is still prepared"); e.alive = false; }
    Result<void> PrepareOffer() noexcept override
    {
        MC_CHECK(i.prepared, "element " << n << " is prepared before its service");
        MC_CHECK(!e.prepared, "element " << n << " is prepared twice");
        if (BED.hit("prepare " + n)) return bad();
        e.prepared = true; e.value.reset(); ++e.prepares;
        return {};
    }
    void PrepareStopOffer() noexcept override { MC_CHECK(e.prepared, "the offer of element " << n << " is withdrawn twice"); e.prepared = false; }
    impl::BindingType GetBindingType() const noexcept override { return impl::BindingType::kLoLa; }
    void SetSkeletonEventTracingData(impl::tracing::SkeletonEventTracingData) noexcept override {}
    Result<void> Send(const int& v, std::optional<SendTraceCallback>, impl::SampleAllocateeGuard) noexcept override
    {
        MC_CHECK(e.prepared, "element " << n << " sends while it is not offered");
        if (BED.hit("send " + n)) return bad();
        e.value = v; e.sent.push_back(v);
        return {};
    }
    Result<void> Send(impl::SampleAllocateePtr<int>, std::optional<SendTraceCallback>) noexcept override { return bad(); }
    Result<impl::SampleAllocateePtr<int>> Allocate(impl::SampleAllocateeGuard) noexcept override { return MakeUnexpected(ComErrc::kBindingFailure); }
    Result<impl::SamplePtr<int>> GetLatestSample(impl::QualityType) override { return MakeUnexpected(ComErrc::kBindingFailure); }
};
struct SkMe : impl::SkeletonMethodBinding
{
    Inst& i; std::string n; impl::MethodType t;
    SkMe(Inst& x, std::string nm, impl::MethodType ty) : i(x), n(nm), t(ty) {}
    ~SkMe() override { slot() = {}; }
    TypeErasedHandler& slot() { auto& e = i.el.at(n); return t == impl::MethodType::kGet ? e.get : t == impl::MethodType::kSet ? e.set : e.call; }
    Result<void> RegisterHandler(TypeErasedHandler&& h) override { slot() = std::move(h); return {}; }
};
struct PrB : impl::ProxyBinding
{
    Inst& i;
    explicit PrB(Inst& x) : i(x) {}
    ~PrB() override { MC_CHECK(i.deinit_done || BED.fail == "torn", "a consumer is destroyed without being deinitialised"); i.alive = false; }
    bool IsEventProvided(const std::string_view) const override { return true; }
    Result<void> SetupMethods(std::size_t) override { return BED.hit("setup") ? bad() : Result<void>{}; }
    void PrepareDeinitialize() override { MC_CHECK(!i.deinit_prepared, "a consumer is deinitialised twice"); i.deinit_prepared = true; }
    void FinalizeDeinitialize() override
    {
        MC_CHECK(i.deinit_prepared && !i.deinit_done, "deinitialisation of a consumer is finished without being begun");
        for (auto& e : i.el) MC_CHECK(!e.second.subscribed, "deinitialisation finishes while element " << e.first << " is still subscribed");
        i.deinit_done = true;
    }
};
struct PrEv : impl::ProxyEventBinding<int>
{
    Inst& i; Elem& e;
    PrEv(Inst& x, std::string n) : i(x), e(x.el.at(n)) { e.alive = true; }
    ~PrEv() override { MC_CHECK(!e.subscribed, "a consumer's element is destroyed while still subscribed"); e.alive = false; }
    Result<void> Subscribe(const std::size_t n) noexcept override { if (BED.hit("subscribe")) return bad(); e.subscribed = true; e.max = n; return {}; }
    impl::SubscriptionState GetSubscriptionState() const noexcept override { return e.subscribed ? impl::SubscriptionState::kSubscribed : impl::SubscriptionState::kNotSubscribed; }
    void Unsubscribe() noexcept override { MC_CHECK(e.subscribed, "unsubscribed twice"); MC_CHECK(!i.deinit_done, "unsubscribed after deinitialisation was finished"); e.subscribed = false; }
    Result<void> SetReceiveHandler(std::weak_ptr<impl::ScopedEventReceiveHandler>) noexcept override { return {}; }
    Result<void> UnsetReceiveHandler() noexcept override { return {}; }
    Result<void> SetSubscriptionStateChangeHandler(impl::SubscriptionStateChangeHandler) noexcept override { return {}; }
    Result<void> UnsetSubscriptionStateChangeHandler() noexcept override { return {}; }
    Result<std::size_t> GetNumNewSamplesAvailable() const override { return std::size_t{0}; }
    std::optional<std::uint16_t> GetMaxSampleCount() const noexcept override { return e.subscribed ? std::optional<std::uint16_t>(e.max) : std::nullopt; }
    impl::BindingType GetBindingType() const noexcept override { return impl::BindingType::kLoLa; }
    void NotifyServiceInstanceChangedAvailability(bool, pid_t) noexcept override {}
    Result<std::size_t> GetNewSamples(Callback&&, impl::TrackerGuardFactory&) noexcept override { return std::size_t{0}; }
};
struct PrMe : impl::ProxyMethodBinding
{
    alignas(64) std::byte in[64], out[64];
    Result<score::cpp::span<std::byte>> GetInArgsBuffer(std::size_t) override { return score::cpp::span<std::byte>{in, sizeof(in)}; }
    Result<score::cpp::span<std::byte>> GetReturnValueBuffer(std::size_t) override { return score::cpp::span<std::byte>{out, sizeof(out)}; }
    Result<void> DoCall(std::size_t) override { return bad(); }
};

int id_of(const impl::InstanceIdentifier& i)
{
    const auto& d = impl::InstanceIdentifierView{i}.GetServiceInstanceDeployment();
    return int(std::get<impl::LolaServiceInstanceDeployment>(d.bindingInfo_).instance_id_->GetId());
}
struct Fact : impl::ISkeletonBindingFactory, impl::ISkeletonEventBindingFactory<int>, impl::ISkeletonFieldBindingFactory<int>, impl::ISkeletonMethodBindingFactory, impl::IProxyBindingFactory,
              impl::IProxyEventBindingFactory<int>, impl::IProxyFieldBindingFactory<int>, impl::IProxyMethodBindingFactory
{
    Fact()
    {
        impl::SkeletonBindingFactory::InjectMockBinding(this); impl::SkeletonEventBindingFactory<int>::InjectMockBinding(this); impl::SkeletonFieldBindingFactory<int>::InjectMockBinding(this);
        impl::SkeletonMethodBindingFactory::InjectMockBinding(this); impl::ProxyBindingFactory::InjectMockBinding(this); impl::ProxyEventBindingFactory<int>::InjectMockBinding(this);
        impl::ProxyFieldBindingFactory<int>::InjectMockBinding(this); impl::ProxyMethodBindingFactory<int(int)>::InjectMockBinding(this);
    }
    std::unique_ptr<impl::SkeletonBinding> Create(const impl::InstanceIdentifier& i) noexcept override { if (BED.hit("create binding")) return nullptr; return std::make_unique<SkB>(BED.of(id_of(i))); }
    std::unique_ptr<impl::SkeletonEventBinding<int>> Create(const impl::InstanceIdentifier&, impl::SkeletonBinding& b, const std::string_view n) noexcept override
    { if (BED.hit("create e")) return nullptr; return std::make_unique<SkEv>(static_cast<SkB&>(b).i, std::string{n}); }
    std::unique_ptr<impl::SkeletonEventBinding<int>> CreateEventBinding(const impl::InstanceIdentifier&, impl::SkeletonBinding& b, const std::string_view n, const impl::FieldTagsStore) noexcept override
    { if (n == "g" && BED.hit("create g")) return nullptr; return std::make_unique<SkEv>(static_cast<SkB&>(b).i, std::string{n}); }
    std::unique_ptr<impl::SkeletonMethodBinding> Create(const impl::InstanceIdentifier&, impl::SkeletonBinding& b, const std::string_view n, impl::MethodType t) override
    { if (t == impl::MethodType::kMethod && BED.hit("create m")) return nullptr; return std::make_unique<SkMe>(static_cast<SkB&>(b).i, std::string{n}, t); }
    Result<std::unique_ptr<impl::ProxyBinding>> Create(const impl::HandleType& h) noexcept override
    { if (BED.hit("create binding")) return MakeUnexpected(ComErrc::kBindingFailure); return std::unique_ptr<impl::ProxyBinding>{std::make_unique<PrB>(BED.of(id_of(h.GetInstanceIdentifier())))}; }
    Result<std::unique_ptr<impl::ProxyEventBinding<int>>> Create(impl::HandleType, impl::ProxyBinding& b, const std::string_view n, const impl::ServiceElementType) noexcept override
    { if (BED.hit("create e")) return MakeUnexpected(ComErrc::kBindingFailure); return std::unique_ptr<impl::ProxyEventBinding<int>>{std::make_unique<PrEv>(static_cast<PrB&>(b).i, std::string{n})}; }
    Result<std::unique_ptr<impl::ProxyEventBinding<int>>> CreateEventBinding(impl::HandleType, impl::ProxyBinding& b, const std::string_view n) noexcept override
    { return std::unique_ptr<impl::ProxyEventBinding<int>>{std::make_unique<PrEv>(static_cast<PrB&>(b).i, std::string{n})}; }
    Result<std::unique_ptr<impl::ProxyMethodBinding>> CreateGetMethodBinding(impl::HandleType, impl::ProxyBinding&, const std::string_view) noexcept override { return std::unique_ptr<impl::ProxyMethodBinding>{std::make_unique<PrMe>()}; }
    Result<std::unique_ptr<impl::ProxyMethodBinding>> CreateSetMethodBinding(impl::HandleType, impl::ProxyBinding&, const std::string_view) noexcept override
    { if (BED.hit("create g")) return MakeUnexpected(ComErrc::kBindingFailure); return std::unique_ptr<impl::ProxyMethodBinding>{std::make_unique<PrMe>()}; }
    Result<std::unique_ptr<impl::ProxyMethodBinding>> Create(impl::HandleType, impl::ProxyBinding&, const std::string_view, impl::MethodType) noexcept override
    { if (BED.hit("create m")) return MakeUnexpected(ComErrc::kBindingFailure); return std::unique_ptr<impl::ProxyMethodBinding>{std::make_unique<PrMe>()}; }
};
struct Sd : impl::IServiceDiscovery
{
    Result<void> OfferService(impl::InstanceIdentifier id) override
    {
        Inst& i = BED.of(id_of(id));
        if (BED.hit("discovery")) return bad();
        MC_CHECK(!i.visible, "a service is announced twice");
        MC_CHECK(i.prepared && i.el.at("e").prepared && i.el.at("f").prepared && i.el.at("g").prepared, "a service becomes visible before it is prepared");
        for (const char* n : {"f", "g"})
            if (!i.el.at(n).value)
            {
                if (BED.offered_before.count({i.id, n})) { if (BED.reoffer) mc::violation("a field that was prepared before becomes visible again without a value"); }
                else mc::violation("a field becomes visible without a value");
            }
        i.visible = true;
        return {};
    }
    Result<void> StopOfferService(impl::InstanceIdentifier id) override { Inst& i = BED.of(id_of(id)); MC_CHECK(i.visible, "a service is withdrawn from discovery twice"); i.visible = false; return {}; }
    Result<void> StopOfferService(impl::InstanceIdentifier, QualityTypeSelector) override { std::abort(); }
    Result<impl::FindServiceHandle> StartFindService(impl::FindServiceHandler<impl::HandleType>, const impl::InstanceSpecifier) override { std::abort(); }
    Result<impl::FindServiceHandle> StartFindService(impl::FindServiceHandler<impl::HandleType>, impl::InstanceIdentifier) override { std::abort(); }
    Result<impl::FindServiceHandle> StartFindService(impl::FindServiceHandler<impl::HandleType>, const impl::EnrichedInstanceIdentifier) override { std::abort(); }
    Result<void> StopFindService(const impl::FindServiceHandle) override { std::abort(); }
    Result<impl::ServiceHandleContainer<impl::HandleType>> FindService(impl::InstanceIdentifier) override { std::abort(); }
    Result<impl::ServiceHandleContainer<impl::HandleType>> FindService(impl::InstanceSpecifier) override { std::abort(); }
};
struct Deploy
{
    impl::ServiceTypeDeployment type{impl::LolaServiceTypeDeployment{7}};
    std::map<int, std::unique_ptr<impl::ServiceInstanceDeployment>> inst;
    impl::InstanceIdentifier id(int n)
    {
        auto& d = inst[n];
        if (!d)
        {
            auto spec = impl::InstanceSpecifier::Create("/p" + std::to_string(n));
            d = std::make_unique<impl::ServiceInstanceDeployment>(impl::make_ServiceIdentifierType("svc"), impl::LolaServiceInstanceDeployment{impl::LolaServiceInstanceId{std::uint16_t(n)}}, impl::QualityType::kASIL_QM, std::move(spec).value());
        }
        return impl::make_InstanceIdentifier(*d, type);
    }
};
Deploy& dep() { static Deploy d; return d; }

struct World
{
    fake::Runtime rt; Sd sd; Fact fact; Bed bed;
    World() { Bed::it() = &bed; rt.add(0, 1, 1); rt.sd = &sd; }
    ~World() { Bed::it() = nullptr; }
};

struct ProvSys final : mc::System, World
{
    struct Model { int id; bool f{false}, g{false}, h{false}, pf{false}, pg{false}, offered{false}; int fv{0}, gv{0}, uh{0}; };
    std::vector<std::optional<Skel>> s{2};
    std::vector<std::optional<Model>> m{2};
    int next{1}, val{10}, last_set{0}, sets{0};
    static constexpr int kOps = 29;
    static std::string name(int op)
    {
        static const char* n[] = {"create", "update f", "update g", "register set handler", "offer", "offer, binding fails", "offer, event fails", "offer, f fails", "offer, g fails", "offer, publishing f fails",
                                  "offer, publishing g fails", "offer, methods incomplete", "offer, discovery fails", "stop offer", "send e", "consumer sets g", "1 constructed from 0", "1 := 0", "0 := 1", "destroy 0", "destroy 1",
                                  "swap", "update f at 1", "offer 1", "stop offer 1", "0 := itself", "create fails", "create fails at m", "create fails at g"};
        return n[op];
    }
    Inst& in(int k) { return bed.of(m[k]->id); }
    // Moves leave empty objects behind: an empty object is one without a model.
    bool usable(int k) { return s[k] && m[k]; }
    bool create(const char* fail)
    {
        if (s[0]) return false;
        if (next > 3) return false;
        const int id = next++;
        auto i = std::make_unique<Inst>(); i->id = id; bed.inst[id] = std::move(i);
        bed.fail = fail;
        auto r = Skel::Create(dep().id(id));
        bed.fail.clear();
        MC_CHECK(r.has_value() == (*fail == 0), "creation " << (r.has_value() ? "succeeds without" : "fails with") << " all bindings");
        if (!r.has_value()) { return true; }
        s[0].emplace(std::move(r).value());
        m[0] = Model{id};
        return true;
    }
    bool update(int k, bool g)
    {
        if (!usable(k)) return false;
        Model& md = *m[k];
        const int v = ++val;
        auto& e = in(k).el.at(g ? "g" : "f");
        const auto before = e.sent.size();
        auto r = g ? s[k]->g.Update(v) : s[k]->f.Update(v);
        if (md.offered) { MC_CHECK(r.has_value() && e.value == v && e.sent.size() == before + 1, "an update of an offered field is not published exactly once"); }
        else MC_CHECK(e.sent.size() == before, "an update of a field that is not offered is published");
        if (!(g ? md.pg : md.pf)) MC_CHECK(r.has_value(), "the initial value of a field is refused");
        if (!md.offered && r.has_value()) { (g ? md.g : md.f) = true; (g ? md.gv : md.fv) = v; }
        return true;
    }
    bool offer(int k, const std::string& fail)
    {
        if (!usable(k) || m[k]->offered) return false;
        Model& md = *m[k]; Inst& i = in(k);
        bed.offered_before.clear();
        if (md.pf) bed.offered_before.insert({md.id, "f"});
        if (md.pg) bed.offered_before.insert({md.id, "g"});
        std::map<std::string, int> prep; for (auto& e : i.el) prep[e.first] = e.second.prepares;
        const auto fsent = i.el.at("f").sent.size(), gsent = i.el.at("g").sent.size();
        bed.fail = fail;
        auto r = s[k]->OfferService();
        const bool consumed = bed.fail.empty() && !fail.empty();
        bed.fail.clear();
        const bool complete = (md.f || md.pf) && (md.g || md.pg) && (md.h || md.pg);
        if (r.has_value())
        {
            MC_CHECK(complete, "a service is offered although a field has no initial value or no set handler");
            MC_CHECK(!consumed, "a service is offered although a step failed");
            MC_CHECK(i.visible, "a service is offered but not visible");
            if (!md.pf) MC_CHECK(i.el.at("f").sent.size() == fsent + 1 && i.el.at("f").value == md.fv, "the initial value of field f is not published exactly once");
            if (!md.pg) MC_CHECK(i.el.at("g").sent.size() == gsent + 1 && i.el.at("g").value == md.gv, "the initial value of field g is not published exactly once");
            md.offered = true; md.pf = md.pg = true;
        }
        else
        {
            MC_CHECK(!complete || consumed, "an offer of a complete service fails");
            if (!consumed && (!(md.f || md.pf) || !(md.g || md.pg)) && (md.h || md.pg)) MC_CHECK(r.error() == ComErrc::kFieldValueIsNotValid, "a missing initial value is not reported");
            MC_CHECK(!i.visible && !i.prepared && !i.el.at("e").prepared && !i.el.at("f").prepared && !i.el.at("g").prepared, "a failed offer is not undone completely");
            if (i.el.at("f").sent.size() > fsent) md.pf = true;
            if (i.el.at("g").sent.size() > gsent) md.pg = true;
        }
        return true;
    }
    bool stop(int k)
    {
        if (!usable(k)) return false;
        const bool was = m[k]->offered; Inst& i = in(k); const int st = i.stops;
        s[k]->StopOfferService();
        m[k]->offered = false;
        MC_CHECK(i.stops == st + (was ? 1 : 0), "an offer is not withdrawn exactly once");
        return true;
    }
    bool moved(int dst, int src, bool construct)
    {
        if (!usable(src) || (construct ? bool(s[dst]) : !s[dst])) return false;   // moving from a moved-from object is no contract
        std::optional<int> old; if (!construct && m[dst]) old = m[dst]->id;
        if (construct) s[dst].emplace(std::move(*s[src])); else *s[dst] = std::move(*s[src]);
        if (old) gone(*old);
        m[dst] = m[src]; m[src].reset();
        return true;
    }
    void gone(int id)
    {
        Inst& i = bed.of(id);
        MC_CHECK(!i.visible, "a provider is gone but its service is still visible");
        MC_CHECK(!i.prepared, "a provider is gone but its offer is still prepared");
        MC_CHECK(!i.alive, "a provider is gone but its binding lives on");
        for (auto& e : i.el) MC_CHECK(!e.second.alive, "a provider is gone but element " << e.first << " lives on");
    }
    bool destroy(int k) { if (!s[k]) return false; std::optional<int> id; if (m[k]) id = m[k]->id; s[k].reset(); m[k].reset(); if (id) gone(*id); return true; }
    bool apply(int op) override
    {
        const bool ok = run(op);
        if (ok) check();
        return ok;
    }
    bool run(int op)
    {
        static const char* fails[] = {"", "binding", "prepare e", "prepare f", "prepare g", "send f", "send g", "methods", "discovery"};
        if (op >= 4 && op <= 12) return offer(0, fails[op - 4]);
        switch (op)
        {
            case 0: return create("");
            case 1: return update(0, false);
            case 2: return update(0, true);
            case 3:
            {
                if (!usable(0)) return false;
                auto r = s[0]->g.RegisterSetHandler([this](int& v) { ++sets; last_set = v; v += 1000; });
                MC_CHECK(r.has_value(), "the set handler is refused");
                m[0]->h = true;
                return true;
            }
            case 13: return stop(0);
            case 14:
            {
                if (!usable(0)) return false;
                auto& e = in(0).el.at("e"); const auto n = e.sent.size(); const int v = ++val;
                auto r = s[0]->e.Send(v);
                MC_CHECK(r.has_value() == m[0]->offered, "sending " << (r.has_value() ? "works while not offered" : "fails while offered"));
                MC_CHECK(e.sent.size() == n + (m[0]->offered ? 1 : 0), "an event is not sent exactly once");
                if (!r.has_value()) MC_CHECK(r.error() == ComErrc::kNotOffered, "sending without an offer is reported as something else");
                return true;
            }
            case 15:
            {
                if (!usable(0) || !m[0]->h) return false;
                auto& e = in(0).el.at("g"); const auto n = e.sent.size(); const int before = sets;
                alignas(64) std::byte ib[64]{}, ob[64]{};
                const int want = ++val; std::memcpy(ib, &want, sizeof(want));
                auto* out = new (ob) score::Result<int>{0};
                e.set(impl::QualityType::kASIL_QM, score::cpp::span<std::byte>{ib, sizeof(int)}, score::cpp::span<std::byte>{ob, sizeof(score::Result<int>)});
                MC_CHECK(sets == before + 1 && last_set == want, "the set handler does not get the requested value once");
                if (m[0]->offered) MC_CHECK(out->has_value() && out->value() == want + 1000 && e.sent.size() == n + 1 && e.value == want + 1000, "an accepted value is not published");
                else MC_CHECK(!out->has_value() && e.sent.size() == n, "setting a field that is not offered is reported as success");
                std::destroy_at(out);
                return true;
            }
            case 16: return moved(1, 0, true);
            case 17: return moved(1, 0, false);
            case 18: return moved(0, 1, false);
            case 19: return destroy(0);
            case 20: return destroy(1);
            case 21: if (!usable(0) || !usable(1)) return false; std::swap(*s[0], *s[1]); std::swap(m[0], m[1]); return true;
            case 22: return update(1, false);
            case 23: return offer(1, "");
            case 24: return stop(1);
            case 25: if (!usable(0)) return false; { auto& x = *s[0]; x = std::move(*&x); } return true;
            case 26: return create("create e");
            case 27: return create("create m");
            default: return create("create g");
        }
    }
    template <class M, class E> void ref(M& map, const char* n, E& el, const char* what)
    {
        auto it = map.find(n);
        if (it == map.end()) { mc::violation(std::string(what) + " " + n + " is not known to its provider"); return; }
        MC_CHECK(&it->second.get().Get() == static_cast<decltype(&it->second.get().Get())>(&el), what << " " << n << " of a provider refers to another object");
    }
    void check()
    {
        for (int k = 0; k < 2; ++k)
            if (usable(k))
            {
                impl::SkeletonBaseView v{*s[k]};
                MC_CHECK(&static_cast<SkB&>(v.GetBinding()).i == &in(k), "a provider got the binding of another one");
                auto ev = v.GetEvents(); auto fi = v.GetFields(); auto me = v.GetMethods();
                MC_CHECK(ev.size() == 1 && fi.size() == 2 && me.size() == 1, "a provider knows a wrong number of elements");
                ref(ev, "e", s[k]->e, "event"); ref(fi, "f", s[k]->f, "field"); ref(fi, "g", s[k]->g, "field"); ref(me, "m", s[k]->m, "method");
                Inst& i = in(k);
                const bool o = m[k]->offered;
                MC_CHECK(i.alive, "a provider lost its binding");
                MC_CHECK(i.visible == o && i.prepared == o && i.el.at("e").prepared == o && i.el.at("f").prepared == o && i.el.at("g").prepared == o, "a provider is " << (o ? "" : "not ") << "offered but its elements are not in that state");
            }
        for (auto& i : bed.inst)
        {
            bool owned = false;
            for (int k = 0; k < 2; ++k) owned |= m[k] && m[k]->id == i.first;
            if (!owned) MC_CHECK(!i.second->alive && !i.second->visible && !i.second->prepared, "a provider nobody owns is still alive or visible");
        }
    }
    std::string canon() override
    {
        std::ostringstream o;
        for (int k = 0; k < 2; ++k)
        {
            o << (s[k] ? 'S' : '-');
            if (m[k]) { auto& x = *m[k]; o << x.f << x.g << x.h << x.pf << x.pg << x.offered << bool(in(k).el.at("f").value) << bool(in(k).el.at("g").value); }
            o << '|';
        }
        o << next;
        return o.str();
    }
    void finish() override { for (int k = 0; k < 2; ++k) destroy(k); check(); }
};

struct ConsSys final : mc::System, World
{
    std::vector<std::optional<Prox>> p{2};
    std::vector<int> m = std::vector<int>(2, 0);
    int next{1};
    static constexpr int kOps = 18;
    static std::string name(int op)
    {
        static const char* n[] = {"create", "subscribe e", "subscribe f", "subscribe g", "unsubscribe e", "unsubscribe f", "1 constructed from 0", "1 := 0", "0 := 1", "destroy 0", "destroy 1", "swap", "subscribe e at 1",
                                  "subscription fails", "0 := itself", "create fails at e", "create fails at m", "create fails in set-up"};
        return n[op];
    }
    bool usable(int k) { return p[k] && m[k]; }
    Inst& in(int k) { return bed.of(m[k]); }
    bool create(const char* fail)
    {
        if (p[0] || next > 3) return false;
        const int id = next++;
        auto i = std::make_unique<Inst>(); i->id = id; bed.inst[id] = std::move(i);
        bed.fail = fail;
        auto r = Prox::Create(impl::make_HandleType(dep().id(id)));
        bed.fail.clear();
        MC_CHECK(r.has_value() == (*fail == 0), "creation " << (r.has_value() ? "succeeds without" : "fails with") << " all bindings");
        if (r.has_value()) { p[0].emplace(std::move(r).value()); m[0] = id; }
        return true;
    }
    bool sub(int k, const char* n, bool fail)
    {
        if (!usable(k)) return false;
        auto& e = in(k).el.at(n);
        const bool was = e.subscribed;
        if (fail) bed.fail = "subscribe";
        auto r = *n == 'e' ? p[k]->e.Subscribe(2) : *n == 'f' ? p[k]->f.Subscribe(2) : p[k]->g.Subscribe(2);
        bed.fail.clear();
        MC_CHECK(r.has_value() == (was || !fail), "wrong result of a subscription");
        MC_CHECK(e.subscribed == (was || !fail), "element " << n << " is not subscribed after subscribing");
        return true;
    }
    void gone(int id) { if (!id) return; Inst& i = bed.of(id); MC_CHECK(i.deinit_done && !i.alive, "a consumer is gone but was not deinitialised"); for (auto& e : i.el) MC_CHECK(!e.second.subscribed && !e.second.alive, "a consumer is gone but element " << e.first << " lives on"); }
    bool moved(int dst, int src, bool construct)
    {
        if (!usable(src) || (construct ? bool(p[dst]) : !p[dst])) return false;
        const int old = construct ? 0 : m[dst];
        if (construct) p[dst].emplace(std::move(*p[src])); else *p[dst] = std::move(*p[src]);
        gone(old);
        m[dst] = m[src]; m[src] = 0;
        return true;
    }
    bool destroy(int k) { if (!p[k]) return false; const int id = m[k]; p[k].reset(); m[k] = 0; gone(id); return true; }
    bool run(int op)
    {
        switch (op)
        {
            case 0: return create("");
            case 1: return sub(0, "e", false);
            case 2: return sub(0, "f", false);
            case 3: return sub(0, "g", false);
            case 4: if (!usable(0)) return false; p[0]->e.Unsubscribe(); MC_CHECK(!in(0).el.at("e").subscribed, "still subscribed"); return true;
            case 5: if (!usable(0)) return false; p[0]->f.Unsubscribe(); MC_CHECK(!in(0).el.at("f").subscribed, "still subscribed"); return true;
            case 6: return moved(1, 0, true);
            case 7: return moved(1, 0, false);
            case 8: return moved(0, 1, false);
            case 9: return destroy(0);
            case 10: return destroy(1);
            case 11: if (!usable(0) || !usable(1)) return false; std::swap(*p[0], *p[1]); std::swap(m[0], m[1]); return true;
            case 12: return sub(1, "e", false);
            case 13: return sub(0, "e", true);
            case 14: if (!usable(0)) return false; { auto& x = *p[0]; x = std::move(*&x); } return true;
            case 15: return create("create e");
            case 16: return create("create m");
            default: return create("setup");
        }
    }
    bool apply(int op) override
    {
        if (!run(op)) return false;
        for (int k = 0; k < 2; ++k)
            if (usable(k))
            {
                Inst& i = in(k);
                MC_CHECK(i.alive && !i.deinit_prepared, "a live consumer is deinitialised");
                impl::ProxyBaseView v{*p[k]};
                MC_CHECK(&static_cast<PrB&>(v.GetBinding()).i == &i, "a consumer got the binding of another one");
                MC_CHECK(id_of(p[k]->GetHandle().GetInstanceIdentifier()) == m[k], "a consumer names another service");
                const char* nm[] = {"e", "f", "g"};
                for (const char* n : nm)
                {
                    const auto st = *n == 'e' ? p[k]->e.GetSubscriptionState() : *n == 'f' ? p[k]->f.GetSubscriptionState() : p[k]->g.GetSubscriptionState();
                    MC_CHECK((st == impl::SubscriptionState::kSubscribed) == i.el.at(n).subscribed && i.el.at(n).alive, "element " << n << " of a consumer refers to another object");
                }
            }
        return true;
    }
    std::string canon() override
    {
        std::ostringstream o;
        for (int k = 0; k < 2; ++k) { o << (p[k] ? 'P' : '-'); if (m[k]) for (auto& e : in(k).el) o << e.second.subscribed; o << '|'; }
        o << next;
        return o.str();
    }
    void finish() override { for (int k = 0; k < 2; ++k) destroy(k); for (auto& i : bed.inst) MC_CHECK(!i.second->alive, "a consumer's binding outlives it"); }
};

// Ownership flags, references to moveable objects, guards: small classes, all sequences.
struct FlagSys final : mc::System
{
    std::vector<std::optional<impl::FlagOwner>> f{3}; std::vector<int> m = std::vector<int>(3, -1);
    static constexpr int kOps = 3 * 5 + 9 + 6;
    static std::string name(int op)
    {
        const char* n[] = {"create ", "create set ", "set ", "clear ", "destroy "};
        if (op < 15) return n[op % 5] + std::to_string(op / 5);
        if (op < 24) return std::to_string((op - 15) / 3) + " := " + std::to_string((op - 15) % 3);
        static const int pr[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
        return std::to_string(pr[op - 24][0]) + " constructed from " + std::to_string(pr[op - 24][1]);
    }
    bool apply(int op) override
    {
        int tot = 0, want = 0;
        if (op < 15)
        {
            const int i = op / 5;
            switch (op % 5)
            {
                case 0: if (f[i]) return false; f[i].emplace(); m[i] = 0; break;
                case 1: if (f[i]) return false; f[i].emplace(true); m[i] = 1; break;
                case 2: if (!f[i]) return false; f[i]->Set(); m[i] = 1; break;
                case 3: if (!f[i]) return false; f[i]->Clear(); m[i] = 0; break;
                default: if (!f[i]) return false; f[i].reset(); m[i] = -1;
            }
        }
        else if (op < 24)
        {
            const int d = (op - 15) / 3, s = (op - 15) % 3;
            if (!f[d] || !f[s]) return false;
            *f[d] = std::move(*f[s]);
            if (d != s) { m[d] = m[s]; m[s] = 0; }
        }
        else
        {
            static const int pr[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
            const int d = pr[op - 24][0], s = pr[op - 24][1];
            if (f[d] || !f[s]) return false;
            f[d].emplace(std::move(*f[s])); m[d] = m[s]; m[s] = 0;
        }
        for (int i = 0; i < 3; ++i) { if (f[i]) { tot += f[i]->IsSet(); MC_CHECK(f[i]->IsSet() == (m[i] == 1), "an ownership flag is " << (f[i]->IsSet() ? "set" : "clear") << " where it should not be"); } want += m[i] == 1; }
        MC_CHECK(tot == want, "ownership is duplicated or lost");
        return true;
    }
    std::string canon() override { std::string s; for (int i = 0; i < 3; ++i) s += char('1' + m[i]); return s; }
};
struct Thing : impl::EnableReferenceToMoveableFromThis<Thing> { int id; explicit Thing(int i) : id(i) {} Thing(Thing&& o) noexcept = default; Thing& operator=(Thing&& o) noexcept = default; Thing(const Thing&) = delete; Thing& operator=(const Thing&) = delete; };
struct RefSys final : mc::System
{
    std::vector<std::optional<Thing>> t{3}; std::vector<int> m = std::vector<int>(3, -1);      // -1 none, 0 moved-from, n identity
    std::map<int, impl::ReferenceToMoveable<Thing>::Reference*> ref;
    int next{1};
    static constexpr int kOps = 3 + 3 + 9 + 6;
    static std::string name(int op)
    {
        if (op < 3) return "create " + std::to_string(op);
        if (op < 6) return "destroy " + std::to_string(op - 3);
        if (op < 15) return std::to_string((op - 6) / 3) + " := " + std::to_string((op - 6) % 3);
        static const int pr[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
        return std::to_string(pr[op - 15][0]) + " constructed from " + std::to_string(pr[op - 15][1]);
    }
    bool apply(int op) override
    {
        if (op < 3) { if (t[op] || next > 4) return false; t[op].emplace(next); m[op] = next; ref[next] = &t[op]->GetReferenceToMoveable(); ++next; }
        else if (op < 6) { const int i = op - 3; if (!t[i]) return false; if (m[i] > 0) ref.erase(m[i]); t[i].reset(); m[i] = -1; }
        else if (op < 15)
        {
            const int d = (op - 6) / 3, s = (op - 6) % 3;
            if (!t[d] || !t[s] || m[s] == 0) return false;            // assigning from a moved-from object is no contract
            *t[d] = std::move(*t[s]);
            if (d != s) { if (m[d] > 0) ref.erase(m[d]); m[d] = m[s]; m[s] = 0; }
        }
        else
        {
            static const int pr[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
            const int d = pr[op - 15][0], s = pr[op - 15][1];
            if (t[d] || !t[s] || m[s] == 0) return false;
            t[d].emplace(std::move(*t[s])); m[d] = m[s]; m[s] = 0;
        }
        for (int i = 0; i < 3; ++i)
            if (m[i] > 0)
            {
                MC_CHECK(&ref.at(m[i])->Get() == &*t[i], "a reference does not follow the object it belongs to");
                MC_CHECK(&t[i]->GetReferenceToMoveable() == ref.at(m[i]), "an object hands out another reference after being moved");
                MC_CHECK(&static_cast<const impl::ReferenceToMoveable<Thing>::Reference&>(*ref.at(m[i])).Get() == &*t[i], "a reference does not follow the object it belongs to");
            }
        return true;
    }
    std::string canon() override { std::ostringstream o; for (int i = 0; i < 3; ++i) o << m[i] << ','; o << next; return o.str(); }
};
struct GuardSys final : mc::System
{
    std::unique_ptr<impl::SampleAllocateeTracker> t{std::make_unique<impl::SampleAllocateeTracker>()};
    std::vector<std::optional<impl::SampleAllocateeGuard>> g{3}; std::vector<int> m = std::vector<int>(3, -1);
    static constexpr int kOps = 3 * 4 + 9 + 6;
    static std::string name(int op)
    {
        const char* n[] = {"allocate ", "default ", "destroy ", "allocate into "};
        if (op < 12) return n[op % 4] + std::to_string(op / 4);
        op -= 12;
        if (op < 9) return std::to_string(op / 3) + " := " + std::to_string(op % 3);
        static const int pr[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
        return std::to_string(pr[op - 9][0]) + " constructed from " + std::to_string(pr[op - 9][1]);
    }
    bool apply(int op) override
    {
        static const int pr[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
        if (op < 12)
        {
            const int i = op / 4;
            switch (op % 4)
            {
                case 0: if (g[i]) return false; g[i].emplace(t->Allocate()); m[i] = 1; break;
                case 1: if (g[i]) return false; g[i].emplace(); m[i] = 0; break;
                case 2: if (!g[i]) return false; g[i].reset(); m[i] = -1; break;
                default: if (!g[i]) return false; *g[i] = t->Allocate(); m[i] = 1;
            }
        }
        else if (op < 21) { op -= 12; const int d = op / 3, s = op % 3; if (!g[d] || !g[s]) return false; *g[d] = std::move(*g[s]); if (d != s) { m[d] = m[s]; m[s] = 0; } }
        else { op -= 21; const int d = pr[op][0], s = pr[op][1]; if (g[d] || !g[s]) return false; g[d].emplace(std::move(*g[s])); m[d] = m[s]; m[s] = 0; }
        std::size_t want = 0; for (int x : m) want += x == 1;
        MC_CHECK(t->GetNumAllocated() == want, "allocated samples are counted as " << t->GetNumAllocated() << ", " << want << " are held");
        return true;
    }
    std::string canon() override { std::string s; for (int x : m) s += char('1' + x); return s; }
    void finish() override { g.clear(); t.reset(); }
};
struct MapSys final : mc::System
{
    using Map = std::map<std::string_view, int>;
    Map real[2]; std::map<std::string, int> model[2];
    std::vector<impl::ServiceElementMapView<int>> v;
    int at{0};
    MapSys() { v.push_back(impl::ServiceElementMapViewFactory<int>::Create(real[0])); }
    static constexpr int kOps = 10;
    static std::string name(int op) { static const char* n[] = {"add a", "add b", "add c", "remove a", "remove b", "change a", "copy view", "view other map", "assign view", "move view"}; return n[op]; }
    bool apply(int op) override
    {
        static const std::string_view k[] = {"a", "b", "c"};
        auto& r = real[at]; auto& md = model[at];
        switch (op)
        {
            case 0: case 1: case 2: r.emplace(k[op], op); md.emplace(std::string(k[op]), op); break;
            case 3: case 4: if (!r.erase(k[op - 3])) return false; md.erase(std::string(k[op - 3])); break;
            case 5: { auto it = v[0].find("a"); if (it == v[0].end()) return false; it->second += 10; if (it->second > 30) return false; md["a"] += 10; break; }
            case 6: { auto c = v[0]; v.clear(); v.push_back(c); break; }
            case 7: { at = 1 - at; v.clear(); v.push_back(impl::ServiceElementMapViewFactory<int>::Create(real[at])); break; }
            case 8: { at = 1 - at; auto c = impl::ServiceElementMapViewFactory<int>::Create(real[at]); v[0] = c; break; }
            default: { auto c = std::move(v[0]); v.clear(); v.push_back(std::move(c)); }
        }
        auto& x = v[0]; const auto& cx = v[0]; auto& want = model[at];
        MC_CHECK(x.size() == want.size() && x.empty() == want.empty(), "a view counts " << x.size() << " elements, the provider has " << want.size());
        auto w = want.begin();
        for (auto it = x.begin(); it != x.end(); ++it, ++w) if (w == want.end() || it->first != w->first || it->second != w->second) { mc::violation("a view lists other elements"); break; }
        auto w2 = want.begin(); std::size_t n = 0;
        for (auto it = x.cbegin(); it != x.cend(); ++it, ++w2, ++n) if (w2 == want.end() || it->first != w2->first) { mc::violation("a view lists other elements"); break; }
        MC_CHECK(n == want.size(), "a view lists other elements");
        for (auto key : {"a", "b", "c", "d"})
        {
            const bool has = want.count(key);
            auto it = x.find(key); MC_CHECK((it != x.end()) == has && (!has || it->second == want[key]), "looking up an element gives a wrong answer");
            auto ci = cx.find(key); MC_CHECK((ci != cx.cend()) == has && (!has || ci->second == want[key]), "looking up an element gives a wrong answer");
        }
        return true;
    }
    std::string canon() override { std::ostringstream o; o << at; for (auto& m : model) { o << '|'; for (auto& e : m) o << e.first << e.second; } return o.str(); }
};
template <class S> static void go(const char* n, int depth) { mc::bfs(n, {depth}, S::kOps, S::name, [] { return std::unique_ptr<mc::System>{std::make_unique<S>()}; }); }
}  // namespace

MC_CASE(O01, providers) { go<ProvSys>("providers", 40); }
namespace {
// Fields that are offered again (after a stop-offer or a failed offer) need a value, too.
struct ReofferSys final : mc::System
{
    ProvSys p;
    ReofferSys() { p.bed.reoffer = true; }
    static int map(int op) { static const int o[] = {0, 1, 2, 3, 4, 12, 13, 14}; return o[op]; }
    static constexpr int kOps = 8;
    static std::string name(int op) { return ProvSys::name(map(op)); }
    bool apply(int op) override { return p.apply(map(op)); }
    std::string canon() override { return p.canon(); }
    void finish() override { p.finish(); }
};
}
MC_CASE(O01, reoffer) { go<ReofferSys>("reoffer", 7); }
MC_CASE(O01, consumers) { go<ConsSys>("consumers", 40); }
MC_CASE(O01, flags) { go<FlagSys>("flags", 40); }
MC_CASE(O01, references) { go<RefSys>("references", 40); }
MC_CASE(O01, guards) { go<GuardSys>("guards", 40); }
MC_CASE(O01, element_maps) { go<MapSys>("element_maps", 40); }
