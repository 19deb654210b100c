// R02: a provider that died anywhere is restarted on the existing shared data.
#include "event_world.h"
#include "fake_runtime.h"
#include "score/mw/com/impl/bindings/lola/service_data_control.h"
#include "score/mw/com/impl/bindings/lola/skeleton_memory_manager.h"

namespace score::mw::com::impl::lola
{
// the way the repository's own tests reach the manager's view of the shared memory
class SkeletonMemoryManagerTestAttorney
{
  public:
    static void set(SkeletonMemoryManager& m, ServiceDataControl* qm, ServiceDataControl* b) { m.control_qm_ = qm; m.control_asil_b_ = b; }
};
}  // namespace score::mw::com::impl::lola

namespace
{
namespace impl = score::mw::com::impl;
const lola::ElementFqId kEv{7, 1, 3, impl::ServiceElementType::EVENT};

struct NoPaths final : lola::IShmPathBuilder
{
    std::string GetDataChannelShmName(const impl::LolaServiceInstanceId::InstanceId) const noexcept override { return "/d"; }
    std::string GetControlChannelShmName(const impl::LolaServiceInstanceId::InstanceId, const impl::QualityType) const noexcept override { return "/c"; }
    std::string GetMethodChannelShmName(const impl::LolaServiceInstanceId::InstanceId, const lola::ProxyInstanceIdentifier&) const noexcept override { return "/m"; }
};

struct TracingRt : impl::tracing::ITracingRuntime
{
    bool disabled{false};
    void DisableTracing() noexcept override { disabled = true; }
    bool IsTracingEnabled() override { return !disabled; }
    impl::tracing::ServiceElementTracingData RegisterServiceElement(const impl::BindingType, std::uint8_t) noexcept override { std::abort(); }
    void SetDataLossFlag(const impl::BindingType) noexcept override { std::abort(); }
    void RegisterShmObject(const impl::BindingType, const impl::tracing::ServiceElementInstanceIdentifierView, const score::memory::shared::ISharedMemoryResource::FileDescriptor, void* const) override { std::abort(); }
    void UnregisterShmObject(impl::BindingType, impl::tracing::ServiceElementInstanceIdentifierView) override { std::abort(); }
    score::Result<void> Trace(const impl::BindingType, const impl::tracing::ServiceElementTracingData, const impl::tracing::ServiceElementInstanceIdentifierView, const TracePointType, const TracePointDataId, impl::tracing::TypeErasedSamplePtr, const void* const, const std::size_t) override { std::abort(); }
    score::Result<void> Trace(const impl::BindingType, const impl::tracing::ServiceElementInstanceIdentifierView, const TracePointType, const std::optional<TracePointDataId>, const void* const, const std::size_t) override { std::abort(); }
    impl::tracing::IBindingTracingRuntime& GetBindingTracingRuntime(const impl::BindingType) const noexcept override { std::abort(); }
};

// What stays in shared memory, and what the living consumers know.
struct Shm
{
    World w; bool has_b; lola::ServiceDataControl *qm{}, *b{};
    std::optional<Channel> cq, cb;
    fake::Runtime rt;
    TracingRt tracing;
    NoPaths paths;
    impl::LolaServiceInstanceDeployment inst; impl::LolaServiceTypeDeployment type{1};
    std::uint32_t top{0};        // largest time stamp the provider began to publish
    int newest{-1};              // slot of the newest completely published sample
    bool newest_rewritten{false};// ghost: its slot was handed out for writing again (the newest sample is gone)
    Shm(int slots, bool with_b) : w(slots), has_b(with_b)
    {
        arena(0).reset();
        qm = make(slots); cq.emplace(&qm->event_controls_.find(kEv)->second);
        if (has_b) { b = make(slots); cb.emplace(&b->event_controls_.find(kEv)->second); }
        rt.add(0, 1000, 0);
        rt.tr = &tracing;
    }
    lola::ServiceDataControl* make(int slots)
    {
        auto* c = arena(0).construct<lola::ServiceDataControl>(std::size_t{1}, arena(0));
        c->event_controls_.emplace(std::piecewise_construct, std::forward_as_tuple(kEv),
            std::forward_as_tuple(static_cast<lola::SlotIndexType>(slots), static_cast<lola::EventControl::SubscriberCountType>(4), false, std::ref(static_cast<score::memory::shared::ManagedMemoryResource&>(arena(0)))));
        return c;
    }
    lola::EventSlotStatus st(const Channel& c, int s) { return lola::EventSlotStatus{c.ctl->data_control.state_slots_[s].load()}; }
    const Channel& authority() { return has_b ? *cb : *cq; }
};

// One life of the provider process, in the order the skeleton and its event set it up.
struct Life
{
    Shm& m; std::optional<lola::ProviderEventDataControlLocalView<>> vq, vb;
    std::optional<lola::ConsumerEventDataControlLocalView<>> tv;
    std::optional<lola::TransactionLogRegistrationGuard> tguard;
    std::optional<lola::EventDataControlComposite<>> comp;
    std::uint32_t ts{0}; std::deque<int> inflight; std::deque<lola::SamplePtr<Payload>> traced; std::deque<int> traced_slot;
    bool trace, getter;
    Life(Shm& s, bool tr, bool get = false) : m(s), trace(tr), getter(get) { if (getter) m.rt.tr = nullptr; }
    void start(bool restart)
    {
        if (restart)
        {
            lola::SkeletonMemoryManager mgr{m.has_b ? impl::QualityType::kASIL_B : impl::QualityType::kASIL_QM, m.paths, m.inst, m.type, 3, 7};
            lola::SkeletonMemoryManagerTestAttorney::set(mgr, m.qm, m.b);
            mgr.CleanupSharedMemoryAfterCrash();
            mgr.RollbackSkeletonTracingTransactions(*m.cq->ctl);
            if (m.has_b) mgr.RollbackSkeletonTracingTransactions(*m.cb->ctl);
        }
        vq.emplace(m.cq->ctl->data_control);
        tv.emplace(m.cq->ctl->data_control);
        if (m.has_b) vb.emplace(m.cb->ctl->data_control);
        comp.emplace(*vq, m.has_b ? &*vb : nullptr);
        if (trace && (getter || !m.tracing.disabled)) tguard.emplace(m.cq->ctl->transaction_log_set_.RegisterSkeletonTransactionLog(*tv));
        ts = comp->GetLatestTimestamp();
    }
    bool alloc()
    {
        auto r = comp->AllocateNextSlot();
        if (!r.allocated_slot_index.has_value()) return false;
        const int s = *r.allocated_slot_index;
        MC_CHECK(s >= 0 && s < m.w.slots, "allocated slot " << s);
        mc::ghost(&m.w);
        m.w.published[s] = 0;
        m.w.payload[s].v = 0xdead0000u;
        if (s == m.newest) { m.newest_rewritten = true; }
        inflight.push_back(s);
        return true;
    }
    void publish()
    {
        if (inflight.empty()) return;
        const int s = inflight.front(); inflight.pop_front();
        ++ts;
        mc::ghost(&m.w);
        m.w.payload[s].v = ts; if (ts > m.top) m.top = ts;
        comp->EventReady(static_cast<lola::SlotIndexType>(s), ts);
        mc::ghost(&m.w);
        m.w.published[s] = ts; m.newest = s; m.newest_rewritten = false;
    }
    void discard() { if (inflight.empty()) return; const int s = inflight.front(); inflight.pop_front(); comp->Discard(static_cast<lola::SlotIndexType>(s)); }
    void trace_newest()
    {
        if (!tguard || m.newest < 0 || m.newest_rewritten) return;
        for (int s : traced_slot) if (s == m.newest) return;
        tv->ReferenceSpecificEvent(static_cast<lola::SlotIndexType>(m.newest));
        traced.emplace_back(&m.w.payload[m.newest], *tv, static_cast<lola::SlotIndexType>(m.newest)); traced_slot.push_back(m.newest);
    }
    void untrace() { if (traced.empty()) return; traced.pop_front(); traced_slot.pop_front(); }
    void run(const char* script)
    {
        for (const char* c = script; *c; ++c)
        {
            mc::point("between operations");
            switch (*c)
            {
                case 'a': alloc(); break;
                case 'p': publish(); break;
                case 'd': discard(); break;
                case 's': if (alloc()) { inflight.push_front(inflight.back()); inflight.pop_back(); publish(); } break;
                case 't': trace_newest(); break;
                case 'u': untrace(); break;
            }
        }
    }
};

// script of the first life, and of the consumers before/while it runs: letters g fetch 1, G fetch 2, r release, - nothing
struct P { int slots; bool b; const char* before; const char* life; const char* cq; const char* cb; bool concurrent; bool trace{false}; const char* life2{""}; bool cut{false}; bool getter{false}; };
void consume(Consumer& c, const char* s) { for (; *s; ++s) switch (*s) { case 'g': c.get(1); break; case 'G': c.get(2); break; case 'r': c.release(); break; } c.check_all("while the provider runs"); }

void run(const char* name, P p, int preempt, int crashes)
{
    mc::Config cfg{preempt}; cfg.crashes = crashes;
    mc::explore(name, cfg, [p, crashes] {
        auto m = std::make_unique<Shm>(p.slots, p.b);
        auto& w = m->w;
        std::optional<Consumer> q, bc;
        q.emplace(w, *m->cq, 0, p.slots); if (p.b) bc.emplace(w, *m->cb, 1, p.slots);
        std::vector<int> rogue;
        lola::ConsumerEventDataControlLocalView<> rv{m->cq->ctl->data_control};
        std::optional<lola::TransactionLogRegistrationGuard> rg;
        auto life = std::make_unique<Life>(*m, p.trace, p.getter);
        int prov = mc::new_proc();
        m->rt.add(prov, 1001, 1);
        {
            mc::NoPreempt np;
            mc::join(mc::spawn([&] { life->start(false); life->run(p.before); }, "provider", prov));
            if (p.cut)
            {   // a QM consumer keeps everything, so that the provider stops using the QM level
                auto g = m->cq->ctl->transaction_log_set_.RegisterProxyElement(static_cast<lola::TransactionLogId>(300), rv); rg.emplace(std::move(g.value()));
                std::uint32_t up = lola::EventSlotStatus::TIMESTAMP_MAX;
                while (auto s = rv.ReferenceNextEvent(0, up)) { rogue.push_back(*s); up = ts_of(m->cq->ctl->data_control, *s); }
            }
            else if (!p.concurrent) { consume(*q, p.cq); if (bc) consume(*bc, p.cb); }
        }
        if (mc::failed()) return;
        mc::focus(arena(0).buf, arena(0).used); mc::crash_region(arena(0).buf, arena(0).used);
        mc::crashable(prov);
        const int t = mc::spawn([&] { life->run(p.life); }, "provider", prov);
        if (p.concurrent)
        {
            const int t1 = mc::spawn([&] { consume(*q, p.cq); }, "QM consumer");
            const int t2 = bc ? mc::spawn([&] { consume(*bc, p.cb); }, "ASIL-B consumer") : -1;
            mc::join(t1); if (t2 >= 0) mc::join(t2);
        }
        mc::join(t);
        mc::crashable(prov, false);
        if (mc::failed()) return;
        bool lost_newest = false; int trace_left = 0;
        int lives = 1;
        std::string out;
        // restart until a life is not interrupted
        for (int i = 0; i <= crashes; ++i)
        {
            const bool crashed = mc::proc_crashed(prov);
            if (!crashed && i > 0) break;
            bool in_cleanup = false;
            trace_left += static_cast<int>(life->traced_slot.size()) + 1;
            m->tracing.disabled = false;   // a new process tries again
            (void)life.release();
            std::vector<std::pair<std::uint64_t, std::uint64_t>> before;
            std::uint32_t remain = 0;
            for (int s = 0; s < w.slots; ++s) { auto x = m->st(m->authority(), s); if (!x.IsInvalid() && !x.IsInWriting()) remain = std::max(remain, x.GetTimeStamp()); }
            life = std::make_unique<Life>(*m, p.trace, p.getter);
            prov = mc::new_proc(); m->rt.add(prov, 1002 + i, 1);
            if (i < crashes) mc::crashable(prov);
            const std::uint32_t top_before = m->top; const bool newest_gone = m->newest_rewritten;
            mc::join(mc::spawn([&] {
                in_cleanup = true;
                life->start(true);
                in_cleanup = false;
                mc::NoPreempt np;
                MC_CHECK(life->ts == remain, "the restarted provider continues after time stamp " << life->ts << " although " << remain << " is the newest one kept");
                if (remain < top_before)
                {
                    // only the newest sample's own slot being rewritten (or its publication not finished) explains a smaller number
                    bool unfinished = m->newest < 0 || w.published[m->newest] < top_before;
                    MC_CHECK(newest_gone || unfinished, "sample " << top_before << " was published and not replaced, but the restarted provider does not know it");
                }
                life->run(p.life2);
            }, "restarted provider", prov));
            mc::crashable(prov, false);
            ++lives;
            if (mc::failed()) return;
            if (mc::proc_crashed(prov)) { out += in_cleanup ? "c" : "l"; continue; }
            MC_CHECK(!mc::proc_dead(prov), "the restarted provider terminated: " << mc::proc_death(prov));
            if (mc::failed()) return;
            break;
        }
        mc::NoPreempt np;
        q->check_all("after the restart"); if (bc) bc->check_all("after the restart");
        if (mc::failed()) return;
        mc::join(mc::spawn([&] {
            while (!life->inflight.empty()) life->discard();
            while (!life->traced.empty()) life->untrace();
            // every slot nobody living holds is usable
            for (int s = 0; s < w.slots; ++s)
            {
                MC_CHECK(!m->st(*m->cq, s).IsInWriting() || (p.cut && life->comp->IsQmControlDisconnected()), "QM slot " << s << " is still in writing");
                if (p.b) MC_CHECK(!m->st(*m->cb, s).IsInWriting(), "ASIL-B slot " << s << " is still in writing");
            }
            std::set<int> busy; for (auto& h : q->held) busy.insert(h.slot); if (bc) for (auto& h : bc->held) busy.insert(h.slot);
            if (!p.cut)
            {
                // once taking or dropping a trace reference was itself interrupted, trace references stay and tracing is off
                const int want = std::max(0, w.slots - static_cast<int>(busy.size()) - (m->tracing.disabled ? trace_left : 0));
                int n = 0; while (n < want && life->alloc()) ++n;
                MC_CHECK(n == want, "only " << n << " slots usable after the restart, " << busy.size() << " of " << w.slots << " are held by consumers");
                MC_CHECK(!life->comp->IsQmControlDisconnected(), "the QM level is cut off because of what the dead provider left");
                const std::size_t k = life->inflight.size();
                for (std::size_t j = 0; j < k; ++j) life->publish();
            }
            else life->run("ss");
        }, "restarted provider", prov));
        if (mc::failed()) return;
        q->check_all("after further sends"); if (bc) bc->check_all("after further sends");
        mc::outcome(out + std::to_string(lives) + "t" + std::to_string(life->ts) + (m->tracing.disabled ? "D" : ""));
        auto after = [&](Consumer& c, const char* who) {
            const auto l = c.last;
            c.release_all();
            if (mc::failed()) return;
            c.get(static_cast<std::size_t>(p.slots));
            if (life->ts > l) MC_CHECK(c.last == life->ts || p.cut, who << " gets samples up to " << c.last << " after the restart instead of " << life->ts);
            if (life->ts <= l || m->newest < 0) lost_newest = lost_newest || (life->ts < l + 1 && m->newest >= 0);
            c.release_all();
        };
        if (!p.cut) after(*q, "the QM consumer");
        if (bc) after(*bc, "the ASIL-B consumer");
        if (mc::failed()) return;
        // a consumer that starts now sees every retained sample
        {
            Consumer f{w, p.b ? *m->cb : *m->cq, 5, p.slots};
            const int n = f.get(static_cast<std::size_t>(p.slots));
            int have = 0; for (auto x : w.published) have += x != 0;
            MC_CHECK(n >= have, "a new consumer gets " << n << " of " << have << " samples");
            f.release_all();
        }
        for (int s : rogue) rv.DereferenceEvent(static_cast<lola::SlotIndexType>(s));
        mc::join(mc::spawn([&] { life->tguard.reset(); }, "end", prov));
        if (mc::failed()) return;
        if (lost_newest) mc::violation("a provider that died after its newest sample's own slot was handed out for writing again restarts with time stamps consumers have already seen, so they miss its first samples");
    });
}
}  // namespace
MC_CASE(R02, qm) { run("qm", {3, false, "ss", "sasspa", "gG", "", false}, 0, 1); }
MC_CASE(R02, qm_b) { run("qm_b", {3, true, "ss", "sasspad", "g", "G", false}, 0, 1); }
MC_CASE(R02, qm_b_fresh) { run("qm_b_fresh", {3, true, "", "aapapds", "", "", false}, 0, 1); }
MC_CASE(R02, one_slot) { run("one_slot", {1, false, "s", "dss", "", "", false}, 0, 1); }
MC_CASE(R02, newest_rewritten) { run("newest_rewritten", {2, false, "s", "s", "gg", "", true}, mc::tier(1, 2), 1); }
MC_CASE(R02, twice) { run("twice", {3, true, "ss", "asp", "g", "g", false, false, "asp"}, 0, 2); }
MC_CASE(R02, thrice) { run("thrice", {3, true, "s", "asp", "g", "", false, false, "sas"}, 0, mc::tier(2, 3)); }
MC_CASE(R02, concurrent) { run("concurrent", {3, true, "s", "ss", "gr", "g", true}, mc::tier(1, 2), 1); }
MC_CASE(R02, concurrent_qm) { run("concurrent_qm", {3, false, "s", "sas", "grg", "", true}, mc::tier(2, 3), 1); }
MC_CASE(R02, after_cut) { run("after_cut", {3, true, "sss", "ssap", "", "", false, false, "", true}, 0, 1); }
MC_CASE(R02, traced) { run("traced", {3, true, "s", "tstusut", "g", "g", false, true}, 0, 1); }
MC_CASE(R02, traced_twice) { run("traced_twice", {3, false, "s", "ts", "g", "", false, true, "tst"}, 0, 2); }
// a field that can be read: the provider references its newest value through the same transaction log, without tracing
MC_CASE(R02, readable) { run("a provider dies while its field is read", {3, false, "s", "tustu", "g", "", false, true, "s", false, true}, 0, 1); }
