// The whole stack: real skeletons and proxies of a small service, above an in-memory kernel, an in-memory service
// discovery and an in-memory message bus. Everything between the public API and these three is the repository's code.
#ifndef VERIF_STACK_H
#define VERIF_STACK_H
#include "fake_runtime.h"
#include "fakeos.h"
#include "score/filesystem/filesystem.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/mw/com/impl/bindings/lola/service_data_control.h"
#include "score/mw/com/impl/bindings/lola/shm_path_builder.h"
#include "score/mw/com/impl/bindings/lola/messaging/method_call_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/messaging/method_subscription_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/messaging/method_unsubscription_registration_guard.h"
#include "score/mw/com/impl/configuration/lola_service_type_deployment.h"
#include "score/mw/com/impl/traits.h"

namespace stack
{
namespace impl = score::mw::com::impl;
namespace lola = score::mw::com::impl::lola;
using impl::QualityType;

struct Bus final : lola::IMessagePassingService
{
    struct Reg { lola::ElementFqId id; QualityType q; pid_t pid; std::weak_ptr<impl::ScopedEventReceiveHandler> h; };
    std::map<std::uint32_t, Reg> regs;
    std::map<std::string, HandlerStatusChangeCallback> existence;
    std::uint32_t next{0};
    int notified{0}, delivered{0};
    std::map<std::string, ServiceMethodSubscribedHandler> subscribed;
    std::map<std::string, ServiceMethodUnsubscribedHandler> unsubscribed;
    std::map<std::string, MethodCallHandler> calls;
    std::optional<score::safecpp::Scope<>> scope{score::safecpp::Scope<>{}};
    std::map<std::string, AllowedConsumerUids> allowed; std::map<std::string, uid_t> caller;   // who may subscribe and call
    uid_t client_uid{1000}; pid_t client_pid{1};
    bool fail_subscribe{false}, fail_call{false}, fail_register{false};
    std::function<void()> before_call;
    static std::string q(QualityType t) { return std::to_string(int(t)) + "/"; }
    static std::string k(QualityType t, const lola::SkeletonInstanceIdentifier& s) { return q(t) + std::to_string(s.service_id) + "/" + std::to_string(s.instance_id); }
    static std::string k(QualityType t, const lola::ProxyMethodInstanceIdentifier& m)
    { return q(t) + std::to_string(m.proxy_instance_identifier.application_id) + "/" + std::to_string(m.proxy_instance_identifier.proxy_instance_counter) + "/" + std::to_string(m.unique_method_identifier.method_or_field_id) + "/" + std::to_string(int(m.unique_method_identifier.method_type)); }
    static std::string k(QualityType t, const lola::ElementFqId& id) { return q(t) + id.ToString(); }
    static auto bad() { return score::MakeUnexpected(impl::ComErrc::kBindingFailure); }
    void NotifyEvent(const QualityType t, const lola::ElementFqId id) noexcept override
    {
        mc::ghost(this); ++notified;
        std::vector<std::shared_ptr<impl::ScopedEventReceiveHandler>> hs;
        for (auto& r : regs) if (r.second.id == id && r.second.q == t) if (auto h = r.second.h.lock()) hs.push_back(h);
        for (auto& h : hs) { (*h)(); ++delivered; }
    }
    int count(QualityType t, const lola::ElementFqId& id) { int n = 0; for (auto& r : regs) if (r.second.id == id && r.second.q == t) ++n; return n; }
    HandlerRegistrationNoType RegisterEventNotification(const QualityType t, const lola::ElementFqId id, std::weak_ptr<impl::ScopedEventReceiveHandler> cb, const pid_t pid) noexcept override
    {
        mc::ghost(this);
        regs.emplace(next, Reg{id, t, pid, cb});
        if (count(t, id) == 1) { auto e = existence.find(k(t, id)); if (e != existence.end()) e->second(true); }
        return next++;
    }
    void ReregisterEventNotification(const QualityType t, const lola::ElementFqId id, const pid_t pid) noexcept override
    { mc::ghost(this); for (auto& r : regs) if (r.second.id == id && r.second.q == t) r.second.pid = pid; }
    void UnregisterEventNotification(const QualityType t, const lola::ElementFqId id, const HandlerRegistrationNoType no, const pid_t) noexcept override
    {
        mc::ghost(this);
        auto it = regs.find(no);
        if (it == regs.end() || !(it->second.id == id) || it->second.q != t) { mc::violation("a receive handler is unregistered that is not registered"); return; }
        regs.erase(it);
        if (count(t, id) == 0) { auto e = existence.find(k(t, id)); if (e != existence.end()) e->second(false); }
    }
    void RegisterEventNotificationExistenceChangedCallback(const QualityType t, const lola::ElementFqId id, HandlerStatusChangeCallback cb) noexcept override
    { mc::ghost(this); auto it = existence.insert_or_assign(k(t, id), std::move(cb)).first; if (count(t, id) > 0) it->second(true); }
    void UnregisterEventNotificationExistenceChangedCallback(const QualityType t, const lola::ElementFqId id) noexcept override { mc::ghost(this); existence.erase(k(t, id)); }
    score::Result<lola::MethodSubscriptionRegistrationGuard> RegisterOnServiceMethodSubscribedHandler(const QualityType t, const lola::SkeletonInstanceIdentifier s, ServiceMethodSubscribedHandler h, AllowedConsumerUids u) override
    {
        allowed[k(t, s)] = u;
        mc::ghost(this); if (fail_register) return bad();
        MC_CHECK(subscribed.count(k(t, s)) == 0, "a second handler for method subscriptions is registered");
        subscribed.insert_or_assign(k(t, s), std::move(h)); return lola::MethodSubscriptionRegistrationGuardFactory::Create(*this, t, s, *scope);
    }
    score::Result<lola::MethodUnsubscriptionRegistrationGuard> RegisterOnServiceMethodUnsubscribedHandler(const QualityType t, const lola::SkeletonInstanceIdentifier s, ServiceMethodUnsubscribedHandler h) override
    { mc::ghost(this); unsubscribed.insert_or_assign(k(t, s), std::move(h)); return lola::MethodUnsubscriptionRegistrationGuardFactory::Create(*this, t, s, *scope); }
    score::Result<lola::MethodCallRegistrationGuard> RegisterMethodCallHandler(const QualityType t, const lola::ProxyMethodInstanceIdentifier m, MethodCallHandler h, const uid_t u) override
    { mc::ghost(this); caller[k(t, m)] = u; MC_CHECK(calls.count(k(t, m)) == 0, "a second call handler for one method of one proxy is registered"); calls.insert_or_assign(k(t, m), std::move(h)); return lola::MethodCallRegistrationGuardFactory::Create(*this, t, m, *scope); }
    void NotifyOutdatedNodeId(const QualityType, const pid_t, const pid_t) noexcept override {}
    score::Result<void> SubscribeServiceMethod(const QualityType t, const lola::SkeletonInstanceIdentifier& s, const lola::ProxyInstanceIdentifier& p, const pid_t) override
    {
        mc::ghost(this); if (fail_subscribe) return bad();
        auto i = subscribed.find(k(t, s)); if (i == subscribed.end()) return bad();
        auto h = i->second; auto r = h(p, client_uid, client_pid); if (!r.has_value()) return bad(); if (!r->has_value()) return bad(); return {};
    }
    score::Result<void> UnsubscribeServiceMethod(const QualityType t, const lola::SkeletonInstanceIdentifier& s, const lola::ProxyInstanceIdentifier& p, const pid_t) override
    { mc::ghost(this); auto i = unsubscribed.find(k(t, s)); if (i == unsubscribed.end()) return bad(); auto h = i->second; auto r = h(p); if (!r.has_value()) return bad(); return {}; }
    score::Result<void> CallMethod(const QualityType t, const lola::ProxyMethodInstanceIdentifier& m, const std::size_t pos, const pid_t) override
    {
        mc::ghost(this); if (fail_call) return bad(); if (before_call) before_call();
        auto i = calls.find(k(t, m)); if (i == calls.end()) return bad();
        auto h = i->second; auto r = h(pos); if (!r.has_value()) return bad(); return {};
    }
    void UnregisterOnServiceMethodSubscribedHandler(const QualityType t, lola::SkeletonInstanceIdentifier s) override { mc::ghost(this); subscribed.erase(k(t, s)); }
    void UnregisterMethodCallHandler(const QualityType t, lola::ProxyMethodInstanceIdentifier m) override { mc::ghost(this); calls.erase(k(t, m)); }
    void UnregisterOnServiceMethodUnsubscribedHandler(const QualityType t, lola::SkeletonInstanceIdentifier s) override { mc::ghost(this); unsubscribed.erase(k(t, s)); }
};

// Offers and searches by instance; handlers run in the caller, as the first call of a real search does.
struct Sd final : impl::IServiceDiscovery
{
    using Handles = impl::ServiceHandleContainer<impl::HandleType>;
    struct Search { impl::FindServiceHandler<impl::HandleType> h; impl::EnrichedInstanceIdentifier id; };
    std::map<std::size_t, std::shared_ptr<Search>> searches;
    std::map<std::string, std::pair<impl::InstanceIdentifier, bool>> offered;  // -> also QM
    std::size_t next{1};
    static std::string key(const impl::InstanceIdentifier& i) { impl::InstanceIdentifierView v{i}; return std::string{v.GetServiceTypeDeployment().ToHashString()} + "/" + std::string{v.GetServiceInstanceId().value().ToHashString()}; }
    Handles match(const impl::EnrichedInstanceIdentifier& e)
    {
        Handles r;
        auto i = offered.find(key(e.GetInstanceIdentifier()));
        if (i == offered.end()) return r;
        const bool b = impl::InstanceIdentifierView{i->second.first}.GetServiceInstanceDeployment().asilLevel_ == QualityType::kASIL_B;
        if (e.GetQualityType() == QualityType::kASIL_B ? b : i->second.second) r.push_back(impl::make_HandleType(e.GetInstanceIdentifier()));
        return r;
    }
    void tell(const impl::InstanceIdentifier& id)
    {
        mc::ghost(this);
        std::vector<std::size_t> ids; for (auto& s : searches) if (key(s.second->id.GetInstanceIdentifier()) == key(id)) ids.push_back(s.first);
        for (auto n : ids) { auto i = searches.find(n); if (i == searches.end()) continue; auto s = i->second; s->h(match(s->id), impl::make_FindServiceHandle(n)); }
    }
    score::Result<void> OfferService(impl::InstanceIdentifier id) override { mc::ghost(this); MC_CHECK(offered.count(key(id)) == 0, "a service is announced twice"); offered.insert_or_assign(key(id), std::make_pair(id, true)); tell(id); return {}; }
    score::Result<void> StopOfferService(impl::InstanceIdentifier id) override { mc::ghost(this); MC_CHECK(offered.erase(key(id)) == 1, "a service is withdrawn that is not offered"); tell(id); return {}; }
    score::Result<void> StopOfferService(impl::InstanceIdentifier id, QualityTypeSelector s) override
    { mc::ghost(this); if (s == QualityTypeSelector::kBoth) return StopOfferService(id); auto i = offered.find(key(id)); if (i == offered.end()) return {}; i->second.second = false; tell(id); return {}; }
    std::function<std::vector<impl::InstanceIdentifier>(const impl::InstanceSpecifier&)> resolve;
    score::Result<impl::FindServiceHandle> StartFindService(impl::FindServiceHandler<impl::HandleType> h, const impl::InstanceSpecifier s) override
    {
        auto ids = resolve ? resolve(s) : std::vector<impl::InstanceIdentifier>{};
        if (ids.empty()) return score::MakeUnexpected(impl::ComErrc::kInstanceIDCouldNotBeResolved);
        return StartFindService(std::move(h), impl::EnrichedInstanceIdentifier{ids.front()});
    }
    score::Result<impl::FindServiceHandle> StartFindService(impl::FindServiceHandler<impl::HandleType> h, impl::InstanceIdentifier i) override { return StartFindService(std::move(h), impl::EnrichedInstanceIdentifier{i}); }
    score::Result<impl::FindServiceHandle> StartFindService(impl::FindServiceHandler<impl::HandleType> h, const impl::EnrichedInstanceIdentifier e) override
    {
        mc::ghost(this);
        const auto id = next++;
        auto s = std::make_shared<Search>(Search{std::move(h), e}); searches.emplace(id, s);
        auto hs = match(e); if (!hs.empty()) s->h(hs, impl::make_FindServiceHandle(id));
        return impl::make_FindServiceHandle(id);
    }
    score::Result<void> StopFindService(const impl::FindServiceHandle h) override { mc::ghost(this); searches.erase(impl::FindServiceHandleView{h}.getUid()); return {}; }
    score::Result<Handles> FindService(impl::InstanceIdentifier i) override { return match(impl::EnrichedInstanceIdentifier{i}); }
    score::Result<Handles> FindService(impl::InstanceSpecifier) override { std::abort(); }
};

// What is deployed; the consumer may ask for the QM level of an ASIL-B service.
struct Plan
{
    int slots{3}, subs{3}; bool enforce{false}; bool asil_b{false}; int tracing_slots{0};
    int f_slots{2}, f_subs{3}; bool get{false}, set{false}; bool methods{false}; int queue{1};
    std::optional<std::size_t> data_size, qm_size, b_size; int f_tracing_slots{0}, ew_tracing_slots{0};
    bool cross_vm{false}, forwarded{false};
    std::unordered_map<QualityType, std::vector<uid_t>> consumers, providers; bool strict{false};
};
struct Deployment
{
    impl::ServiceTypeDeployment type;
    impl::ServiceInstanceDeployment inst_b, inst_qm;
    static impl::LolaServiceTypeDeployment mt(const Plan& p)
    {
        impl::LolaServiceTypeDeployment d{7};
        d.events_.emplace("ev", 1); d.events_.emplace("ew", 2); d.fields_.emplace("f", 3); if (p.methods) { d.methods_.emplace("m", 4); d.methods_.emplace("n", 5); }
        return d;
    }
    static impl::LolaServiceInstanceDeployment mi(const Plan& p)
    {
        impl::LolaServiceInstanceDeployment d{impl::LolaServiceInstanceId{5}};
        d.events_.emplace("ev", impl::LolaEventInstanceDeployment{static_cast<std::uint16_t>(p.slots), static_cast<std::uint8_t>(p.subs), 1, p.enforce, static_cast<std::uint8_t>(p.tracing_slots)});
        d.events_.emplace("ew", impl::LolaEventInstanceDeployment{static_cast<std::uint16_t>(2), static_cast<std::uint8_t>(2), 1, p.enforce, static_cast<std::uint8_t>(p.ew_tracing_slots)});
        d.fields_.emplace("f", impl::LolaFieldInstanceDeployment{impl::LolaEventInstanceDeployment{static_cast<std::uint16_t>(p.f_slots), static_cast<std::uint8_t>(p.f_subs), 1, p.enforce, static_cast<std::uint8_t>(p.f_tracing_slots)}, p.get, p.set});
        if (p.methods) for (const char* m : {"m", "n"}) d.methods_.emplace(m, impl::LolaMethodInstanceDeployment{static_cast<std::uint8_t>(p.queue), true});
        if (p.data_size) d.shared_memory_size_ = *p.data_size;
        if (p.qm_size) d.control_qm_memory_size_ = *p.qm_size;
        d.inter_vm_support_ = p.cross_vm; d.inter_vm_forwarded_ = p.forwarded;
        d.allowed_consumer_ = p.consumers; d.allowed_provider_ = p.providers; d.strict_permissions_ = p.strict;
        if (p.b_size) d.control_asil_b_memory_size_ = *p.b_size;
        return d;
    }
    static impl::ServiceInstanceDeployment mk(const Plan& p, QualityType q) { return {impl::make_ServiceIdentifierType("svc"), mi(p), q, impl::InstanceSpecifier::Create(std::string{"inst"}).value()}; }
    explicit Deployment(const Plan& p) : type(mt(p)), inst_b(mk(p, QualityType::kASIL_B)), inst_qm(mk(p, QualityType::kASIL_QM)) {}
    impl::InstanceIdentifier id(bool b) { return impl::make_InstanceIdentifier(b ? inst_b : inst_qm, type); }
};

struct Stack
{
    Plan plan; fos::Os os; fake::Runtime rt; Bus bus; Sd sd; Deployment dep;
    explicit Stack(const Plan& p = {}) : plan(p), dep(p)
    {
        score::memory::shared::SharedMemoryFactory::Clear();   // in case an execution ended by termination
        score::memory::shared::MemoryResourceRegistry::getInstance().clear();
        vshim::Vfs::get().clear();
        for (const char* d : {"/tmp", "/dev/shm"}) vshim::Vfs::get().mkdirs(d, 0777);
        os.k.points = false;
        auto& r = rt.add(0, 1000, 42); r.messaging = &bus; r.discovery = nullptr;
        rt.sd = &sd;
    }
    // the control data both sides share
    lola::ServiceDataControl& control(QualityType q)
    {
        auto r = score::memory::shared::SharedMemoryFactory::Open(lola::ShmPathBuilder{7}.GetControlChannelShmName(5, q), true, std::nullopt);
        return *static_cast<lola::ServiceDataControl*>(r->getUsableBaseAddress());
    }
    lola::EventControl& event(QualityType q, std::uint16_t element = 1, impl::ServiceElementType t = impl::ServiceElementType::EVENT) { return control(q).event_controls_.find(lola::ElementFqId{7, element, 5, t})->second; }
    impl::InstanceIdentifier provided() { return dep.id(plan.asil_b); }
    impl::HandleType handle(bool b) { return impl::make_HandleType(dep.id(b)); }
};
}  // namespace stack
#endif
