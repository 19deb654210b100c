// A stand-in process environment for the lola binding: one runtime per simulated process, recording messaging.
#ifndef VERIF_FAKE_RUNTIME_H
#define VERIF_FAKE_RUNTIME_H
#include "mc.h"
#include "score/mw/com/impl/bindings/lola/i_runtime.h"
#include "score/mw/com/impl/bindings/lola/messaging/i_message_passing_service.h"
#include "score/mw/com/impl/bindings/lola/rollback_synchronization.h"
#include "score/mw/com/impl/i_runtime.h"
#include "score/mw/com/impl/runtime.h"
#include <deque>
#include <functional>
#include <map>

namespace fake
{
namespace impl = score::mw::com::impl;
namespace lola = score::mw::com::impl::lola;

struct Messaging : lola::IMessagePassingService
{
    struct Reg { lola::ElementFqId id; impl::QualityType q; pid_t pid; std::weak_ptr<impl::ScopedEventReceiveHandler> h; };
    std::map<std::uint32_t, Reg> regs;
    std::vector<std::string> bad;
    struct Outdated { impl::QualityType q; pid_t node, target; };
    std::vector<Outdated> outdated;
    std::vector<std::pair<impl::QualityType, lola::ElementFqId>> notified;
    int reregistered{0};
    std::uint32_t next{0};
    void NotifyEvent(const impl::QualityType q, const lola::ElementFqId id) noexcept override { notified.push_back({q, id}); if (on_notify) on_notify(q, id); }
    std::function<void(impl::QualityType, lola::ElementFqId)> on_notify;
    HandlerRegistrationNoType RegisterEventNotification(const impl::QualityType q, const lola::ElementFqId id, std::weak_ptr<impl::ScopedEventReceiveHandler> cb, const pid_t pid) noexcept override
    { regs[next] = {id, q, pid, cb}; return next++; }
    void ReregisterEventNotification(const impl::QualityType q, const lola::ElementFqId id, const pid_t pid) noexcept override
    {
        ++reregistered;
        bool any = false;
        for (auto& r : regs) if (r.second.id == id && r.second.q == q) { r.second.pid = pid; any = true; }
        if (!any) bad.push_back("re-registration without a registered handler");
    }
    void UnregisterEventNotification(const impl::QualityType q, const lola::ElementFqId id, const HandlerRegistrationNoType no, const pid_t) noexcept override
    {
        auto it = regs.find(no);
        if (it == regs.end()) { bad.push_back("unregistered an unknown registration"); return; }
        if (!(it->second.id == id) || it->second.q != q) bad.push_back("unregistered with another element or quality");
        regs.erase(it);
    }
    score::Result<lola::MethodSubscriptionRegistrationGuard> RegisterOnServiceMethodSubscribedHandler(const impl::QualityType, const lola::SkeletonInstanceIdentifier, ServiceMethodSubscribedHandler, AllowedConsumerUids) override { std::abort(); }
    score::Result<lola::MethodUnsubscriptionRegistrationGuard> RegisterOnServiceMethodUnsubscribedHandler(const impl::QualityType, const lola::SkeletonInstanceIdentifier, ServiceMethodUnsubscribedHandler) override { std::abort(); }
    score::Result<lola::MethodCallRegistrationGuard> RegisterMethodCallHandler(const impl::QualityType, const lola::ProxyMethodInstanceIdentifier, MethodCallHandler, const uid_t) override { std::abort(); }
    void NotifyOutdatedNodeId(const impl::QualityType q, const pid_t node, const pid_t target) noexcept override { outdated.push_back({q, node, target}); }
    std::map<std::string, HandlerStatusChangeCallback> existence;
    void RegisterEventNotificationExistenceChangedCallback(const impl::QualityType q, const lola::ElementFqId id, HandlerStatusChangeCallback cb) noexcept override { existence.insert_or_assign(std::to_string(int(q)) + id.ToString(), std::move(cb)); }
    void UnregisterEventNotificationExistenceChangedCallback(const impl::QualityType q, const lola::ElementFqId id) noexcept override { existence.erase(std::to_string(int(q)) + id.ToString()); }
    score::Result<void> SubscribeServiceMethod(const impl::QualityType, const lola::SkeletonInstanceIdentifier&, const lola::ProxyInstanceIdentifier&, const pid_t) override { std::abort(); }
    score::Result<void> UnsubscribeServiceMethod(const impl::QualityType, const lola::SkeletonInstanceIdentifier&, const lola::ProxyInstanceIdentifier&, const pid_t) override { std::abort(); }
    score::Result<void> CallMethod(const impl::QualityType, const lola::ProxyMethodInstanceIdentifier&, const std::size_t, const pid_t) override { std::abort(); }
    void UnregisterOnServiceMethodSubscribedHandler(const impl::QualityType, lola::SkeletonInstanceIdentifier) override {}
    void UnregisterMethodCallHandler(const impl::QualityType, lola::ProxyMethodInstanceIdentifier) override {}
    void UnregisterOnServiceMethodUnsubscribedHandler(const impl::QualityType, lola::SkeletonInstanceIdentifier) override {}
};

struct LolaRuntime : lola::IRuntime
{
    pid_t pid; std::uint32_t app;
    std::unique_ptr<lola::IMessagePassingService> own{std::make_unique<Messaging>()};
    lola::IMessagePassingService* messaging{own.get()};
    lola::RollbackSynchronization sync;
    impl::IServiceDiscoveryClient* discovery{nullptr};
    impl::tracing::IBindingTracingRuntime* tracing{nullptr};
    bool asil_b{true};
    impl::ShmSizeCalculationMode mode{impl::ShmSizeCalculationMode::kSimulation};
    LolaRuntime(pid_t p, std::uint32_t a) : pid(p), app(a) {}
    Messaging& msg() { return static_cast<Messaging&>(*own); }
    impl::BindingType GetBindingType() const noexcept override { return impl::BindingType::kLoLa; }
    impl::IServiceDiscoveryClient& GetServiceDiscoveryClient() & noexcept override { if (!discovery) std::abort(); return *discovery; }
    impl::tracing::IBindingTracingRuntime* GetTracingRuntime() noexcept override { return tracing; }
    lola::IMessagePassingService& GetLolaMessaging() & noexcept override { return *messaging; }
    bool HasAsilBSupport() const noexcept override { return asil_b; }
    impl::ShmSizeCalculationMode GetShmSizeCalculationMode() const noexcept override { return mode; }
    lola::RollbackSynchronization& GetRollbackSynchronization() & noexcept override { return sync; }
    pid_t GetPid() const noexcept override { return pid; }
    decltype(std::declval<const lola::IRuntime&>().GetApplicationId()) GetApplicationId() const noexcept override { return app; }
};

// impl::IRuntime that answers for the simulated process the caller runs in.
struct Runtime : impl::IRuntime
{
    std::map<int, std::unique_ptr<LolaRuntime>> rt;   // process -> binding runtime
    impl::IServiceDiscovery* sd{nullptr};
    impl::tracing::ITracingRuntime* tr{nullptr};
    const impl::tracing::ITracingFilterConfig* filter{nullptr};
    std::map<std::string, std::vector<impl::InstanceIdentifier>> names;
    int domain{-1};   // overrides the process of the caller
    Runtime() { impl::Runtime::InjectMock(this); }
    ~Runtime() override { impl::Runtime::InjectMock(nullptr); }
    LolaRuntime& add(int proc, pid_t pid, std::uint32_t app) { auto& r = rt[proc]; r = std::make_unique<LolaRuntime>(pid, app); return *r; }
    LolaRuntime& here() const
    {
        auto it = rt.find(domain >= 0 ? domain : mc::cur_proc());
        if (it == rt.end()) it = rt.find(0);
        if (it == rt.end()) { mc::violation("no runtime in this process"); std::abort(); }
        return *it->second;
    }
    std::vector<impl::InstanceIdentifier> resolve(const impl::InstanceSpecifier& s) const override { auto it = names.find(std::string{s.ToString()}); return it == names.end() ? std::vector<impl::InstanceIdentifier>{} : it->second; }
    impl::IBindingRuntime* GetBindingRuntime(const impl::BindingType) const noexcept override { return &here(); }
    impl::IServiceDiscovery& GetServiceDiscovery() & noexcept override { if (!sd) std::abort(); return *sd; }
    impl::tracing::ITracingRuntime* GetTracingRuntime() const noexcept override { return tr; }
    const impl::tracing::ITracingFilterConfig* GetTracingFilterConfig() const override { return filter; }
};
}  // namespace fake
#endif
