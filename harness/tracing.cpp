// T01, T02: what tracing keeps, gives back and never disturbs. Real skeletons, proxies and tracing runtimes above an
// in-memory kernel and a trace daemon that answers as the exploration decides.
#include "mc.h"
#include "stack.h"
#include "score/analysis/tracing/generic_trace_library/interface_types/generic_trace_api.h"
#include "score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h"
#include "score/mw/com/impl/configuration/configuration.h"
#include "score/mw/com/impl/tracing/configuration/tracing_filter_config.h"
#include "score/mw/com/impl/tracing/tracing_runtime.h"
#include "score/memory/shared/typedshm/typedshm_wrapper/typed_memory.h"
#include <cstring>
#include <numeric>
namespace
{
using namespace stack;
namespace tr = score::mw::com::impl::tracing;
namespace gt = score::analysis::tracing;
using TP = gt::TracePointType;
using EC = gt::ErrorCode;
template <class T> struct Svc : T::Base
{
    using T::Base::Base;
    typename T::template Event<std::uint32_t> ev{*this, "ev"};
    typename T::template Event<std::uint32_t> ew{*this, "ew"};
};
template <class T> struct Fld : T::Base
{
    using T::Base::Base;
    typename T::template Field<std::uint32_t, impl::WithGetter, impl::WithNotifier> f{*this, "f"};
};
using Skel = impl::SkeletonWrapperClass<Svc>;
using Prox = impl::ProxyWrapperClass<Svc>;
using FSkel = impl::SkeletonWrapperClass<Fld>;
using FProx = impl::ProxyWrapperClass<Fld>;
using Ptr = impl::SamplePtr<std::uint32_t>;

// What the trace daemon answers: success, an error that may pass, one that will not, and the end of all tracing.
enum Answer { kOk, kRecoverable, kLasting, kTerminal, kAnswers };
const char* kAnswerName[] = {"success", "recoverable error", "lasting error", "terminal error"};
gt::ErrorCode code(int a) { return a == kRecoverable ? EC::kRingBufferFullRecoverable : a == kLasting ? EC::kInvalidArgumentFatal : EC::kTerminalFatal; }
template <class T> T answer(int a, T ok) { if (a == kOk) return ok; return T{score::unexpect, gt::MakeError(code(a))}; }

struct Traced { std::uint64_t ctx; TP point; std::uint32_t id; std::uint32_t value; const std::uint32_t* at; std::uint32_t element; };
struct Daemon
{
    int next{kOk}, next_reg{kOk}, next_unreg{kOk}, next_local{kOk}, client{kOk}, done_reg{kOk};
    std::map<int, std::uintptr_t> base;       // registered shared memory: handle -> where it starts here
    int handles{100}, registrations{0}, unregistrations{0};
    std::optional<gt::TraceDoneCallBackType> done;
    std::vector<Traced> shm; std::vector<std::pair<TP, bool>> local; std::vector<bool> lossy; std::vector<std::uint32_t> local_ids;
    std::function<std::uintptr_t()> where;
    Daemon()
    {
        auto& h = vshim::TraceHooks::get();
        h = {};
        h.register_client = [this](gt::BindingType, const std::string&) { return answer(client, gt::RegisterClientResult{gt::TraceClientId{7}}); };
        h.register_done = [this](gt::TraceClientId c, gt::TraceDoneCallBackType cb) { MC_CHECK(c == 7, "another client registers"); if (done_reg == kOk) done.emplace(std::move(cb)); return answer(done_reg, gt::RegisterTraceDoneCallBackResult{score::Blank{}}); };
        h.register_shm = [this](gt::TraceClientId c, int fd) {
            mc::ghost(this);
            MC_CHECK(c == 7 && fd >= 0, "wrong registration of shared memory"); ++registrations;
            const int a = std::exchange(next_reg, kOk); if (a != kOk) return answer(a, gt::RegisterSharedMemoryObjectResult{0});
            base[++handles] = where(); return gt::RegisterSharedMemoryObjectResult{handles};
        };
        h.unregister_shm = [this](gt::TraceClientId, gt::ShmObjectHandle s) {
            mc::ghost(this);
            ++unregistrations; MC_CHECK(base.erase(s) == 1, "shared memory is unregistered that is not registered");
            return answer(std::exchange(next_unreg, kOk), gt::UnregisterSharedMemoryObjectResult{score::Blank{}});
        };
        h.trace_shm = [this](gt::TraceClientId c, const gt::AraComMetaInfo& m, gt::ShmDataChunkList& d, gt::TraceContextId ctx) {
            mc::ghost(this);
            MC_CHECK(c == 7, "another client traces");
            const auto& r = d.root();
            const bool known = base.count(r.start.shm_object_handle);
            MC_CHECK(known, "a trace refers to shared memory that is not registered");
            if (!known) return gt::TraceResult{score::Blank{}};
            MC_CHECK(r.size == sizeof(std::uint32_t), "a trace covers " << r.size << " bytes");
            const auto* at = reinterpret_cast<const std::uint32_t*>(base[r.start.shm_object_handle] + r.start.offset);
            const auto& e = m.properties.service_instance_element;
            MC_CHECK(e.service_id == 7 && e.instance_id == 5, "a trace names another service");
            std::uint32_t el = std::holds_alternative<gt::ServiceInstanceElement::EventId>(e.element_id) ? std::get<gt::ServiceInstanceElement::EventId>(e.element_id).id : std::get<gt::ServiceInstanceElement::FieldId>(e.element_id).id;
            shm.push_back({ctx, m.properties.trace_point_type, m.properties.trace_point_data_id.has_value() ? m.properties.trace_point_data_id.value() : 0u, *at, at, el});
            lossy.push_back(m.data_loss);
            return answer(std::exchange(next, kOk), gt::TraceResult{score::Blank{}});
        };
        h.trace_local = [this](gt::TraceClientId c, const gt::AraComMetaInfo& m, gt::LocalDataChunkList&) {
            mc::ghost(this);
            MC_CHECK(c == 7, "another client traces");
            local.push_back({m.properties.trace_point_type, m.data_loss});
            local_ids.push_back(m.properties.trace_point_data_id.has_value() ? m.properties.trace_point_data_id.value() : 0u);
            return answer(std::exchange(next_local, kOk), gt::TraceResult{score::Blank{}});
        };
    }
    ~Daemon() { vshim::TraceHooks::get() = {}; }
};

// Memory the trace daemon may read.
struct Typed final : score::memory::shared::TypedMemory
{
    Stack& s; explicit Typed(Stack& st) : s(st) {}
    score::cpp::expected_blank<score::os::Error> AllocateNamedTypedMemory(const std::size_t n, const std::string name, const score::memory::shared::permission::UserPermissions&) const noexcept override
    {
        auto fd = score::os::Mman::instance().shm_open(name.c_str(), score::os::Fcntl::Open::kReadWrite | score::os::Fcntl::Open::kCreate | score::os::Fcntl::Open::kExclusive, score::os::Stat::Mode::kReadUser | score::os::Stat::Mode::kWriteUser);
        if (!fd.has_value()) return score::cpp::make_unexpected(fd.error());
        (void)score::os::Unistd::instance().ftruncate(fd.value(), static_cast<off_t>(n)); (void)score::os::Unistd::instance().close(fd.value());
        return score::cpp::blank{};
    }
    score::cpp::expected<int, score::os::Error> AllocateAndOpenAnonymousTypedMemory(const std::uint64_t) const noexcept override { return score::cpp::make_unexpected(score::os::Error::createFromErrno(ENOTSUP)); }
    score::cpp::expected_blank<score::os::Error> Unlink(std::string_view n) const noexcept override { return score::os::Mman::instance().shm_unlink(std::string{n}.c_str()); }
    score::cpp::expected<uid_t, score::os::Error> GetCreatorUid(std::string_view) const noexcept override { return uid_t{1000}; }
};

// One process with tracing set up as the runtime does it.
struct World
{
    Stack s; Daemon d; impl::Configuration cfg; tr::TracingFilterConfig filter;
    std::unique_ptr<lola::tracing::TracingRuntime> binding; std::unique_ptr<tr::TracingRuntime> rt;
    static impl::Configuration conf(Stack& s)
    {
        impl::Configuration::ServiceTypeDeployments t; impl::Configuration::ServiceInstanceDeployments i;
        t.emplace(impl::make_ServiceIdentifierType("svc"), s.dep.type);
        i.emplace(impl::InstanceSpecifier::Create(std::string{"inst"}).value(), s.plan.asil_b ? s.dep.inst_b : s.dep.inst_qm);
        impl::TracingConfiguration tc; tc.SetTracingEnabled(true); tc.SetApplicationInstanceID("app");
        return impl::Configuration{std::move(t), std::move(i), impl::GlobalConfiguration{}, std::move(tc)};
    }
    World(const Plan& p, bool consumer, int client = kOk, int done = kOk) : s(p), cfg(conf(s))
    {
        d.client = client; d.done_reg = done;
        score::memory::shared::SharedMemoryFactory::SetTypedMemoryProvider(std::make_shared<Typed>(s));
        d.where = [this] { auto r = score::memory::shared::SharedMemoryFactory::Open(lola::ShmPathBuilder{7}.GetDataChannelShmName(5), true, std::nullopt); return reinterpret_cast<std::uintptr_t>(r->getBaseAddress()); };
        using SE = tr::SkeletonEventTracePointType; using SF = tr::SkeletonFieldTracePointType; using PE = tr::ProxyEventTracePointType;
        if (p.tracing_slots) for (auto x : {SE::SEND, SE::SEND_WITH_ALLOCATE}) filter.AddTracePoint("svc", "ev", "inst", x);
        if (p.ew_tracing_slots) filter.AddTracePoint("svc", "ew", "inst", SE::SEND);
        if (p.f_tracing_slots) for (auto x : {SF::UPDATE, SF::UPDATE_WITH_ALLOCATE}) filter.AddTracePoint("svc", "f", "inst", x);
        if (consumer) for (auto x : {PE::SUBSCRIBE, PE::UNSUBSCRIBE, PE::SET_RECEIVE_HANDLER, PE::UNSET_RECEIVE_HANDLER, PE::RECEIVE_HANDLER_CALLBACK, PE::GET_NEW_SAMPLES, PE::GET_NEW_SAMPLES_CALLBACK}) filter.AddTracePoint("svc", "ev", "inst", x);
        process(16);
    }
    // a process starts: new runtimes
    void process(int slots)
    {
        d.done.reset(); d.base.clear();
        rt.reset(); binding.reset();
        binding = std::make_unique<lola::tracing::TracingRuntime>(static_cast<lola::tracing::TracingRuntime::SamplePointerIndex>(slots), cfg);
        std::unordered_map<impl::BindingType, tr::IBindingTracingRuntime*> m; m.emplace(impl::BindingType::kLoLa, binding.get());
        rt = std::make_unique<tr::TracingRuntime>(std::move(m));
        s.rt.tr = rt.get(); s.rt.filter = &filter; for (auto& x : s.rt.rt) x.second->tracing = binding.get();
    }
    ~World() { score::memory::shared::SharedMemoryFactory::SetTypedMemoryProvider(nullptr); s.rt.tr = nullptr; s.rt.filter = nullptr; }
    // how often the slots of an event are referenced, over all slots
    int references(QualityType q, std::uint16_t element = 1, impl::ServiceElementType t = impl::ServiceElementType::EVENT)
    {
        lola::ConsumerEventDataControlLocalView<> v{s.event(q, element, t).data_control};
        const int n = int(s.event(q, element, t).data_control.state_slots_.size()); int r = 0;
        for (int i = 0; i < n; ++i) { auto x = v[static_cast<lola::SlotIndexType>(i)]; if (!x.IsInvalid() && !x.IsInWriting()) r += int(x.GetReferenceCount()); }
        return r;
    }
    void complete(std::uint64_t ctx) { MC_CHECK(d.done.has_value(), "there is no completion handler"); if (d.done) (*d.done)(ctx); }
};

// ---- every sequence of sends, completions, answers, offers and fetches ---------------------------------------------
template <int Slots, bool AsilB> struct SendSys final : mc::System
{
    World w; std::unique_ptr<Skel> sk; std::unique_ptr<Prox> px; bool offered{false};
    struct Out { Traced t; }; std::vector<Out> out; std::vector<std::uint64_t> late;
    std::vector<std::pair<Ptr, std::uint32_t>> held; std::uint32_t sent{0}; bool fresh{false};
    bool on{true}, point[2]{true, true}; bool loss{false}; bool reg{true};
    static Plan plan() { Plan p; p.slots = 2; p.subs = 1; p.tracing_slots = Slots; p.asil_b = AsilB; return p; }
    SendSys() : w(plan(), false)
    {
        sk = std::make_unique<Skel>(std::move(Skel::Create(w.s.provided()).value()));
        offer();
        auto r = Prox::Create(w.s.handle(AsilB)); px = std::make_unique<Prox>(std::move(r).value());
        MC_CHECK(px->ev.Subscribe(1).has_value(), "cannot subscribe");
    }
    ~SendSys() override { held.clear(); px.reset(); sk.reset(); }
    void offer() { auto r = sk->OfferService(); MC_CHECK(r.has_value(), "the service cannot be offered"); offered = true; }
    enum Op { SendV, SendA, SendRec, SendLast, SendTerm, SendARec, SendALast, Offer, Stop, Fetch, Release, Done0, Done1, Done2, Late, Stray, kOps };
    static std::string name(int o)
    {
        static const char* n[] = {"send", "send allocated", "send, trace fails recoverably", "send, trace fails lastingly", "send, trace fails terminally", "send allocated, trace fails recoverably", "send allocated, trace fails lastingly", "offer", "stop offer", "fetch", "release", "oldest trace done", "second trace done", "third trace done", "late completion of a trace from before the stop", "completion of a trace nobody waits for"};
        return n[o];
    }
    bool send(bool alloc, int ans)
    {
        const std::size_t before = w.d.shm.size(); const std::uint32_t v = sent + 1;
        const bool expect = on && point[alloc] && int(out.size()) < Slots;
        if (ans != kOk && !expect) return false;
        w.d.next = ans;
        bool ok;
        if (alloc) { auto a = sk->ev.Allocate(); MC_CHECK(a.has_value(), "no sample can be allocated although enough slots are configured"); if (!a.has_value()) return true; auto p = std::move(a).value(); *p = v; ok = sk->ev.Send(std::move(p)).has_value(); }
        else ok = sk->ev.Send(v).has_value();
        MC_CHECK(ok, "sending fails"); ++sent; fresh = true;
        const int got = int(w.d.shm.size() - before);
        MC_CHECK(got == (expect ? 1 : 0), "sending is traced " << got << " times, expected " << expect << " (" << out.size() << " of " << Slots << " traces outstanding)");
        if (on && point[alloc] && !expect) loss = true;
        if (got == 1 && expect)
        {
            const Traced& t = w.d.shm.back();
            MC_CHECK(t.value == v, "the trace of sample " << v << " refers to sample " << t.value);
            MC_CHECK(t.point == (alloc ? TP::kSkelEventSndA : TP::kSkelEventSnd) && t.element == 1, "wrong trace point");
            for (auto& o : out) MC_CHECK(o.t.ctx != t.ctx && o.t.at != t.at, "a trace uses the context or the slot of an outstanding one");
            MC_CHECK(w.d.lossy.back() == loss, "the trace " << (loss ? "does not tell" : "tells") << " of a loss");
            if (ans == kOk) { loss = false; out.push_back({t}); }
            else if (ans == kTerminal) { on = false; }
            else { loss = true; if (ans == kLasting) point[alloc] = false; }
        }
        return true;
    }
    bool apply(int o) override
    {
        switch (o)
        {
            case SendV: case SendA: case SendRec: case SendLast: case SendTerm: case SendARec: case SendALast:
                if (!offered) return false;
                if (!send(o == SendA || o == SendARec || o == SendALast, o == SendV || o == SendA ? kOk : o == SendRec || o == SendARec ? kRecoverable : o == SendTerm ? kTerminal : kLasting)) return false;
                break;
            case Offer: if (offered) return false; offer(); break;
            case Stop:
            {
                if (!offered) return false;
                sk->StopOfferService(); offered = false;
                for (auto& x : out) late.push_back(x.t.ctx); out.clear(); break;
            }
            case Fetch:
            {
                if (!held.empty()) return false;
                std::vector<std::pair<Ptr, std::uint32_t>> got;
                auto r = px->ev.GetNewSamples([&](Ptr p) { auto v = *p; got.emplace_back(std::move(p), v); }, 1);
                if (!offered && !r.has_value()) break;
                MC_CHECK(r.has_value(), "fetching fails"); MC_CHECK(got.size() == (fresh ? 1u : 0u), "fetched " << got.size() << " samples");
                if (got.size()) MC_CHECK(got[0].second == sent, "fetched sample " << got[0].second << " instead of " << sent);
                held = std::move(got); fresh = false; break;
            }
            case Release: if (held.empty()) return false; held.clear(); break;
            case Done0: case Done1: case Done2:
            {
                const std::size_t i = o - Done0; if (i >= out.size()) return false;
                w.complete(out[i].t.ctx); out.erase(out.begin() + i); break;
            }
            case Late:
            {
                if (late.empty()) return false;
                for (auto& x : out) if (x.t.ctx == late.front()) return false;   // see "late completions"
                w.complete(late.front()); late.erase(late.begin()); break;
            }
            case Stray:
                for (std::uint64_t c = 0; c < 3; ++c) { bool used = false; for (auto& x : out) used |= x.t.ctx == c; if (!used) w.complete(c); }
                break;
        }
        return check();
    }
    bool check()
    {
        for (auto& x : out) MC_CHECK(*x.t.at == x.t.value, "sample " << x.t.value << " was overwritten while its trace is outstanding");
        for (auto& h : held) MC_CHECK(*h.first == h.second, "a held sample was overwritten");
        const int want = int(out.size()) + (AsilB ? 0 : int(held.size()));
        const int r = w.references(QualityType::kASIL_QM); MC_CHECK(r == want, "the samples are referenced " << r << " times with " << out.size() << " outstanding traces and " << held.size() << " held");
        if (AsilB) { const int b = w.references(QualityType::kASIL_B); MC_CHECK(b == int(held.size()), "the samples are referenced " << b << " times at the ASIL-B level"); }
        MC_CHECK(w.rt->IsTracingEnabled() == on, "tracing is " << (on ? "off" : "on"));
        return true;
    }
    std::string canon() override
    {
        std::ostringstream s; s << offered << fresh << on << point[0] << point[1] << loss << "|"; for (auto& x : out) s << x.t.ctx << ":" << sent - x.t.value << ","; s << "|"; for (auto c : late) s << c << ","; s << "|"; for (auto& h : held) s << sent - h.second;
        if (sent == 0) s << "n"; return s.str();
    }
    void finish() override
    {
        for (auto& x : out) w.complete(x.t.ctx); out.clear(); held.clear(); check();
        if (!offered) { offer(); check(); }
        for (int i = 0; i < 3; ++i) send(i & 1, kOk), check();
    }
};
MC_CASE(T01, sequences)
{
    mc::bfs("sends, completions, failures and offers: two trace slots", mc::BfsConfig{mc::tier(7, 10)}, SendSys<2, false>::kOps, SendSys<2, false>::name, [] { return std::unique_ptr<mc::System>(new SendSys<2, false>); });
    mc::bfs("sends, completions, failures and offers: one trace slot, ASIL-B", mc::BfsConfig{mc::tier(7, 10)}, SendSys<1, true>::kOps, SendSys<1, true>::name, [] { return std::unique_ptr<mc::System>(new SendSys<1, true>); });
}
MC_CASE(T02, send_failures)
{
    mc::bfs("failures of traced sends", mc::BfsConfig{mc::tier(7, 10)}, SendSys<2, false>::kOps, SendSys<2, false>::name, [] { return std::unique_ptr<mc::System>(new SendSys<2, false>); });
}

// ---- a completion that comes after the service was stopped and offered again ---------------------------------------
MC_CASE(T01, late_completions)
{
    mc::explore("late completions", mc::Config{0}, [] {
        int left = 1;
        {
        Plan p; p.slots = 2; p.subs = 1; p.tracing_slots = 1 + mc::choose(2, "trace slots") * 1;
        World w(p, false);
        auto sk = std::make_unique<Skel>(std::move(Skel::Create(w.s.provided()).value()));
        (void)sk->OfferService();
        auto px = std::make_unique<Prox>(std::move(Prox::Create(w.s.handle(false)).value()));   // keeps the memory
        std::vector<std::uint64_t> late; const int n = 1 + mc::choose(2, "sends"); for (int i = 0; i < n; ++i) (void)sk->ev.Send(i + 1);
        for (auto& t : w.d.shm) late.push_back(t.ctx);
        w.d.shm.clear();
        sk->StopOfferService();
        if (mc::choose(2, "when") == 0) { for (auto c : late) w.complete(c); late.clear(); MC_CHECK(w.references(QualityType::kASIL_QM) == 0, "a late completion changes references"); }
        (void)sk->OfferService();
        (void)sk->ev.Send(10u);
        const std::size_t k = w.d.shm.size(); MC_CHECK(k == 1, "the sample is not traced");
        for (auto c : late) w.complete(c);
        left = w.references(QualityType::kASIL_QM);
        px.reset(); sk.reset();
        }
        MC_CHECK(left == 1, "the completion of a trace from before the stop releases a sample whose trace is outstanding");
    });
}

// ---- an ASIL-B provider that cut off its QM consumers keeps sending ----------------------------------------------------
MC_CASE(T01, cut_off)
{
    mc::explore("tracing after QM consumers were cut off", mc::Config{0}, [] {
        Plan p; p.slots = 2; p.subs = 3; p.tracing_slots = 1 + mc::choose(2, "trace slots"); p.asil_b = true;
        const int slots = p.slots + p.tracing_slots;
        World w(p, false);
        auto sk = std::make_unique<Skel>(std::move(Skel::Create(w.s.provided()).value()));
        (void)sk->OfferService();
        auto b = std::make_unique<Prox>(std::move(Prox::Create(w.s.handle(true)).value())); MC_CHECK(b->ev.Subscribe(1).has_value(), "cannot subscribe");
        {
            // a QM consumer that holds every slot
            auto& c = w.s.event(QualityType::kASIL_QM);
            lola::ConsumerEventDataControlLocalView<> rogue{c.data_control};
            auto g = c.transaction_log_set_.RegisterProxyElement(static_cast<lola::TransactionLogId>(300), rogue);
            std::uint32_t done = 0; std::vector<lola::SlotIndexType> kept;
            for (int i = 0; i < slots + 2; ++i)
            {
                auto r = sk->ev.Send(i + 1); MC_CHECK(r.has_value(), "sending fails");
                std::uint32_t got = 0; { std::vector<Ptr> hold; auto f = b->ev.GetNewSamples([&](Ptr q) { got = *q; hold.push_back(std::move(q)); }, 1); MC_CHECK(f.has_value() && got == static_cast<std::uint32_t>(i + 1), "the ASIL-B consumer does not receive what is sent"); }
                if (auto k = rogue.ReferenceNextEvent(done, lola::EventSlotStatus::TIMESTAMP_MAX)) kept.push_back(*k); ++done;
                if (mc::choose(2, "done")) { for (auto& t : w.d.shm) w.complete(t.ctx); w.d.shm.clear(); }
            }
            for (auto k : kept) rogue.DereferenceEvent(k);
        }
        b.reset(); sk.reset();
    });
}

// ---- a traced field that can also be read ------------------------------------------------------------------------------
void field_read(const char* name, bool while_traced)
{
    mc::explore(name, mc::Config{0}, [=] {
        Plan p; p.f_slots = 3; p.f_subs = 2; p.f_tracing_slots = 2; p.get = true; p.asil_b = mc::choose(2, "ASIL-B") != 0;
        World w(p, false);
        auto sk = std::make_unique<FSkel>(std::move(FSkel::Create(w.s.provided()).value()));
        (void)sk->f.Update(1u);
        MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered");
        auto px = std::make_unique<FProx>(std::move(FProx::Create(w.s.handle(p.asil_b)).value())); auto qx = std::make_unique<FProx>(std::move(FProx::Create(w.s.handle(false)).value()));
        std::uint32_t v = 1; auto& o = w.d.shm;
        auto read = [&](FProx& x) { auto r = x.f.Get(); MC_CHECK(r.has_value(), "reading fails"); if (r.has_value()) MC_CHECK(**r == v, "reading gives " << **r << " instead of " << v); };
        auto finish_newest = [&] { if (!while_traced && !o.empty() && o.back().value == v) { auto c = o.back().ctx; o.pop_back(); w.complete(c); } };
        for (int i = 0; i < mc::tier(4, 6); ++i)
        {
            switch (mc::choose(4, "operation"))
            {
                case 0: MC_CHECK(sk->f.Update(++v).has_value(), "updating fails"); MC_CHECK(o.empty() || o.back().value == v || o.size() == 2, "wrong trace"); break;
                case 1: if (!p.asil_b) finish_newest(); read(*px); break;
                case 2: finish_newest(); read(*qx); break;
                case 3: if (!o.empty()) { auto c = o.front().ctx; o.erase(o.begin()); w.complete(c); } break;
            }
            for (auto& t : o) MC_CHECK(*t.at == t.value, "value " << t.value << " was overwritten while its trace is outstanding");
            MC_CHECK(w.references(QualityType::kASIL_QM, 3, impl::ServiceElementType::FIELD) == int(o.size()), "the samples of the field are referenced " << w.references(QualityType::kASIL_QM, 3, impl::ServiceElementType::FIELD) << " times");
        }
        px.reset(); qx.reset(); sk.reset();
    });
}
MC_CASE(T01, field_read)
{
    field_read("reading a traced field between traces", false);
    field_read("reading a traced field while its trace is outstanding", true);
}

// ---- completions on another thread --------------------------------------------------------------------------------------
void threads(const char* name, int trace_slots, int before, int sends, bool alloc, bool consumer, bool stop, int preempt)
{
    mc::explore(name, mc::Config{preempt}, [=] {
        Plan p; p.slots = 2; p.subs = 1; p.tracing_slots = trace_slots;
        auto w = std::make_unique<World>(p, false);
        std::unique_ptr<Skel> sk; std::unique_ptr<Prox> px;
        struct Now { bool live{true}; Traced t; }; std::deque<Now> out;
        std::uint32_t v = 0; std::size_t seen = 0;
        auto send = [&] {
            auto r = [&] { if (!alloc) return sk->ev.Send(v + 1).has_value(); auto a = sk->ev.Allocate(); if (!a.has_value()) return false; auto q = std::move(a).value(); *q = v + 1; return sk->ev.Send(std::move(q)).has_value(); }();
            MC_CHECK(r, "sending fails"); mc::ghost(&v); ++v;
            for (; seen < w->d.shm.size(); ++seen) out.push_back({true, w->d.shm[seen]});
        };
        auto complete = [&](int n) {
            for (int i = 0; i < n; ++i)
            {
                mc::ghost(&v);
                if (out.empty()) break;
                auto t = out.front().t;
                MC_CHECK(*t.at == t.value, "sample " << t.value << " was overwritten by " << *t.at << " while its trace is outstanding");
                out.pop_front(); w->complete(t.ctx);
            }
        };
        {
            mc::NoPreempt np;
            sk = std::make_unique<Skel>(std::move(Skel::Create(w->s.provided()).value())); (void)sk->OfferService();
            px = std::make_unique<Prox>(std::move(Prox::Create(w->s.handle(false)).value())); (void)px->ev.Subscribe(1);
            for (int i = 0; i < before; ++i) send();
        }
        std::uint32_t last = 0;
        const int a = mc::spawn([&] { for (int i = 0; i < sends; ++i) send(); if (stop) { sk->StopOfferService(); mc::ghost(&v); } }, "provider");
        const int b = mc::spawn([&] { complete(before + sends); }, "trace daemon");
        const int c = consumer ? mc::spawn([&] {
            for (int i = 0; i < 2; ++i) { std::vector<Ptr> h; (void)px->ev.GetNewSamples([&](Ptr q) { h.push_back(std::move(q)); }, 1); for (auto& q : h) { const auto x = *q; MC_CHECK(x > last && x <= v + 1, "received " << x << " after " << last); last = x; mc::point("look again"); MC_CHECK(*q == x, "a held sample was overwritten"); } }
        }, "consumer") : -1;
        mc::join(a); mc::join(b); if (c >= 0) mc::join(c);
        mc::NoPreempt np;
        if (stop) { out.clear(); MC_CHECK(w->references(QualityType::kASIL_QM) == 0, "a sample is referenced " << w->references(QualityType::kASIL_QM) << " times after the service stopped"); }
        else
        {
            for (auto& x : out) MC_CHECK(*x.t.at == x.t.value, "sample " << x.t.value << " was overwritten while its trace is outstanding");
            MC_CHECK(w->references(QualityType::kASIL_QM) == int(out.size()), out.size() << " traces are outstanding, but samples are referenced " << w->references(QualityType::kASIL_QM) << " times");
            complete(10); MC_CHECK(w->references(QualityType::kASIL_QM) == 0, "a sample stays referenced");
            send(); send(); complete(10); MC_CHECK(w->references(QualityType::kASIL_QM) == 0, "a sample stays referenced");
        }
        mc::outcome(std::to_string(seen) + "/" + std::to_string(last));
        px.reset(); sk.reset();
    });
}
MC_CASE(T01, threads)
{
    threads("sends and completions: one trace slot", 1, 1, 2, false, false, false, mc::tier(3, 5));
    threads("sends and completions: two trace slots", 2, 1, 2, true, false, false, mc::tier(3, 4));
    threads("sends, completions and a consumer", 1, 1, 2, false, true, false, mc::tier(2, 3));
    threads("completions while the service stops", 2, 2, 1, false, false, true, mc::tier(3, 5));
}

// ---- T02: shared memory registration, several elements ------------------------------------------------------------------
struct RegSys final : mc::System
{
    World w; std::unique_ptr<Skel> sk; std::unique_ptr<Prox> px; bool offered{false};
    std::vector<Traced> out[2]; std::uint32_t sent[2]{0, 0}; bool on{true}, registered{false}, loss{false}; bool point[3]{true, true, true};   // send, send allocated, send of the other event
    static Plan plan() { Plan p; p.slots = 2; p.subs = 1; p.tracing_slots = 1; p.ew_tracing_slots = 1; return p; }
    RegSys() : w(plan(), false) { sk = std::make_unique<Skel>(std::move(Skel::Create(w.s.provided()).value())); offer(kOk); px = std::make_unique<Prox>(std::move(Prox::Create(w.s.handle(false)).value())); MC_CHECK(px->ev.Subscribe(1).has_value() && px->ew.Subscribe(1).has_value(), "cannot subscribe"); }
    ~RegSys() override { px.reset(); sk.reset(); }
    void offer(int a)
    {
        const int before = w.d.registrations; w.d.next_reg = a;
        auto r = sk->OfferService(); MC_CHECK(r.has_value(), "the service cannot be offered"); offered = true;
        MC_CHECK(w.d.registrations - before == (on ? 1 : 0), "the shared memory is registered " << w.d.registrations - before << " times");
        w.d.next_reg = kOk; registered = on && a == kOk; if (a == kTerminal) on = false;
    }
    void stop(int a)
    {
        const int before = w.d.unregistrations; w.d.next_unreg = a;
        sk->StopOfferService(); offered = false;
        MC_CHECK(w.d.unregistrations - before == (on && registered ? 1 : 0), "the shared memory is unregistered " << w.d.unregistrations - before << " times");
        w.d.next_unreg = kOk; if (on && registered && a == kTerminal) on = false; registered = false; out[0].clear(); out[1].clear();
    }
    bool send(int p, int ans)
    {
        const int e = p == 2; const bool may = on && point[p], traced = may && registered && out[e].empty();
        if (ans != kOk && !traced) return false;
        const std::size_t before = w.d.shm.size(); const std::uint32_t v = sent[e] + 1; w.d.next = ans;
        bool ok;
        if (p == 1) { auto a = sk->ev.Allocate(); MC_CHECK(a.has_value(), "no sample can be allocated although enough slots are configured"); if (!a.has_value()) return true; auto q = std::move(a).value(); *q = v; ok = sk->ev.Send(std::move(q)).has_value(); }
        else ok = (e ? sk->ew.Send(v) : sk->ev.Send(v)).has_value();
        MC_CHECK(ok, "sending fails"); ++sent[e];
        const int got = int(w.d.shm.size() - before); w.d.next = kOk;
        MC_CHECK(got == (traced ? 1 : 0), "sending is traced " << got << " times instead of " << traced);
        if (!may) return true;
        if (!registered) point[p] = false;
        else if (!traced) loss = true;
        else if (got == 1)
        {
            const Traced& t = w.d.shm.back();
            MC_CHECK(t.value == v && t.element == (e ? 2u : 1u) && t.point == (p == 1 ? TP::kSkelEventSndA : TP::kSkelEventSnd), "the trace of sample " << v << " refers to sample " << t.value);
            MC_CHECK(w.d.lossy.back() == loss, "the trace " << (loss ? "does not tell" : "tells") << " of a loss");
            for (auto& o : out) for (auto& x : o) MC_CHECK(x.ctx != t.ctx && x.at != t.at, "a trace uses the context or the slot of an outstanding one");
            if (ans == kOk) { loss = false; out[e].push_back(t); } else if (ans == kTerminal) on = false; else { loss = true; if (ans == kLasting) point[p] = false; }
        }
        return true;
    }
    enum Op { S = 0, Offer = 12, Stop = 15, Done = 19, kOps = 21 };
    static std::string name(int o)
    {
        static const char* p[] = {"send", "send allocated", "send the other event"};
        if (o < Offer) return std::string(p[o / 4]) + (o % 4 ? std::string(": ") + kAnswerName[o % 4] : "");
        if (o < Stop) return std::string("offer: ") + kAnswerName[o == Offer ? 0 : o - Offer + 1];
        if (o < Done) return std::string("stop offer: ") + kAnswerName[o - Stop];
        return o == Done ? "trace done" : "other event's trace done";
    }
    bool apply(int o) override
    {
        if (o < Offer) { if (!offered || !send(o / 4, o % 4)) return false; }
        else if (o < Stop) { const int a = o == Offer ? 0 : o - Offer + 1; if (offered || (a && !on)) return false; offer(a); }
        else if (o < Done) { const int a = o - Stop; if (!offered || (a && !(on && registered))) return false; stop(a); }
        else { auto& x = out[o - Done]; if (x.empty()) return false; w.complete(x[0].ctx); x.clear(); }
        check(); return true;
    }
    void check()
    {
        for (int e = 0; e < 2; ++e)
        {
            for (auto& x : out[e]) MC_CHECK(*x.at == x.value, "sample " << x.value << " was overwritten while its trace is outstanding");
            const int r = w.references(QualityType::kASIL_QM, static_cast<std::uint16_t>(e + 1)); MC_CHECK(r == int(out[e].size()), "the samples are referenced " << r << " times with " << out[e].size() << " outstanding traces");
        }
        MC_CHECK(w.rt->IsTracingEnabled() == on, "tracing is " << (on ? "off" : "on"));
    }
    void receive()
    {
        std::uint32_t got[2] = {0, 0}; { std::vector<Ptr> h; auto f = [&](int e) { return [&h, &got, e](Ptr q) { got[e] = *q; h.push_back(std::move(q)); }; }; (void)px->ev.GetNewSamples(f(0), 1); (void)px->ew.GetNewSamples(f(1), 1); }
        for (int e = 0; e < 2; ++e) if (got[e]) MC_CHECK(got[e] == sent[e], "received sample " << got[e] << " instead of " << sent[e]);
        MC_CHECK((got[0] != 0) == (sent[0] != 0) && (got[1] != 0) == (sent[1] != 0), "a sample was not received");
    }
    std::string canon() override { std::ostringstream s; s << offered << on << registered << loss << point[0] << point[1] << point[2]; for (auto& o : out) { s << "|"; for (auto& x : o) s << x.ctx; } s << (sent[0] > 0) << (sent[1] > 0); return s.str(); }
    void finish() override { if (!offered) offer(kOk); else receive(); for (int p = 0; p < 3; ++p) { (void)send(p, kOk); check(); } receive(); for (auto& o : out) { for (auto& x : o) w.complete(x.ctx); o.clear(); } check(); }
};
MC_CASE(T02, registration) { mc::bfs("shared memory registrations, two events and the trace backend's answers", mc::BfsConfig{mc::tier(9, 14)}, RegSys::kOps, RegSys::name, [] { return std::unique_ptr<mc::System>(new RegSys); }); }

// Memory whose registration failed for a passing reason is registered again at the next trace.
MC_CASE(T02, registered_again)
{
    mc::explore("shared memory that could not be registered for a passing reason", mc::Config{0}, [] {
        bool traced = false; int again = kOk;
        {
        Plan p; p.slots = 2; p.subs = 1; p.tracing_slots = 2;
        World w(p, false); auto sk = std::make_unique<Skel>(std::move(Skel::Create(w.s.provided()).value()));
        std::unique_ptr<Prox> px; if (mc::choose(2, "a consumer")) { (void)sk->OfferService(); px = std::make_unique<Prox>(std::move(Prox::Create(w.s.handle(false)).value())); (void)px->ev.Subscribe(1); sk->StopOfferService(); }
        w.d.next_reg = kRecoverable; MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered");
        again = mc::choose(kAnswers, "answer to the second attempt"); w.d.next_reg = again;
        std::uint32_t v = 0; const int n = mc::tier(3, 5);
        for (int i = 0; i < n; ++i)
        {
            const std::size_t before = w.d.shm.size();
            if (mc::choose(2, "allocate")) { auto a = sk->ev.Allocate(); MC_CHECK(a.has_value(), "no sample can be allocated"); if (!a.has_value()) return; auto q = std::move(a).value(); *q = ++v; MC_CHECK(sk->ev.Send(std::move(q)).has_value(), "sending fails"); }
            else MC_CHECK(sk->ev.Send(++v).has_value(), "sending fails");
            if (w.d.shm.size() > before) { traced = true; MC_CHECK(w.d.shm.back().value == v, "the trace refers to another sample"); w.complete(w.d.shm.back().ctx); }
            if (px) { std::uint32_t got = 0; { std::vector<Ptr> h; (void)px->ev.GetNewSamples([&](Ptr q) { got = *q; h.push_back(std::move(q)); }, 1); } MC_CHECK(got == v, "the sample is not received"); }
        }
        if (again != kOk) MC_CHECK(!traced, "samples are traced although their memory is not registered");
        MC_CHECK(w.references(QualityType::kASIL_QM) == 0, "a sample stays referenced");
        sk->StopOfferService(); MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered again");   // whatever was remembered is forgotten
        MC_CHECK(sk->ev.Send(++v).has_value(), "sending fails");
        px.reset(); sk.reset();
        }
        if (again == kOk) MC_CHECK(traced, "the shared memory is not registered again");
    });
}

// A process that the trace backend does not accept communicates as any other.
MC_CASE(T02, refused)
{
    mc::explore("the trace backend refuses the process", mc::Config{0}, [] {
        Plan p; p.slots = 2; p.subs = 1; p.tracing_slots = 1; p.asil_b = mc::choose(2, "ASIL-B") != 0;
        const int client = mc::choose(kAnswers, "answer to the client"), done = client == kOk ? 1 + mc::choose(kAnswers - 1, "answer to the completion handler") : kOk;
        World w(p, true, client, done);
        MC_CHECK(!w.rt->IsTracingEnabled(), "tracing is on although the trace backend refused the process");
        auto sk = std::make_unique<Skel>(std::move(Skel::Create(w.s.provided()).value())); MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered");
        auto px = std::make_unique<Prox>(std::move(Prox::Create(w.s.handle(p.asil_b)).value())); MC_CHECK(px->ev.Subscribe(1).has_value(), "cannot subscribe");
        int called = 0; MC_CHECK(px->ev.SetReceiveHandler([&] { ++called; }).has_value(), "cannot set a handler");
        for (std::uint32_t v = 1; v <= 3; ++v)
        {
            MC_CHECK(sk->ev.Send(v).has_value(), "sending fails");
            std::uint32_t got = 0; { std::vector<Ptr> h; (void)px->ev.GetNewSamples([&](Ptr q) { got = *q; h.push_back(std::move(q)); }, 1); } MC_CHECK(got == v && called == int(v), "the sample is not received");
            if (v == 2) { sk->StopOfferService(); MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered again"); }
        }
        MC_CHECK(w.d.shm.empty() && w.d.local.empty() && w.d.registrations == 0 && w.d.unregistrations == 0, "something is traced although tracing is off");
        px->ev.Unsubscribe(); px.reset(); sk.reset();
    });
}

// ---- T02: the consumer's trace points -----------------------------------------------------------------------------------
struct ConsumerSys final : mc::System
{
    static constexpr int N = 7; static constexpr TP kind[N] = {TP::kProxyEventSub, TP::kProxyEventUnsub, TP::kProxyEventSetRechdl, TP::kProxyEventUnsetRechdl, TP::kProxyEventRechdl, TP::kProxyEventGetSamples, TP::kProxyEventSampleCb};
    enum { Sub, Unsub, SetH, UnsetH, Handler, Get, Cb };
    World w; std::unique_ptr<Skel> sk; struct P { std::unique_ptr<Prox> px; bool point[N]{true, true, true, true, true, true, true}; bool subscribed{false}, handler{false}, wrapped{false}; bool fresh{false}; int called{0}; } p[2];
    bool on{true}, loss{false}; int armed{kOk}; std::uint32_t sent{0}; std::size_t seen{0}, seen_ids{0};
    static Plan plan() { Plan q; q.slots = 3; q.subs = 2; return q; }
    ConsumerSys() : w(plan(), true)
    {
        sk = std::make_unique<Skel>(std::move(Skel::Create(w.s.provided()).value())); (void)sk->OfferService();
        for (auto& x : p) x.px = std::make_unique<Prox>(std::move(Prox::Create(w.s.handle(false)).value()));
    }
    ~ConsumerSys() override { for (auto& x : p) { x.px->ev.Unsubscribe(); x.px.reset(); } sk.reset(); }
    // the traces made by one operation, in order: who would make which one
    void expect(std::vector<std::pair<int, int>> list, std::uint32_t id)
    {
        for (auto [who, k] : list)
        {
            if (!on || !p[who].point[k]) continue;
            const bool there = seen < w.d.local.size();
            MC_CHECK(there, "trace point " << int(kind[k]) << " is not traced"); if (!there) return;
            auto t = w.d.local[seen]; const auto got = w.d.local_ids[seen]; ++seen;
            MC_CHECK(t.first == kind[k], "trace point " << int(t.first) << " is traced instead of " << int(kind[k]));
            MC_CHECK(t.second == loss, "the trace " << (loss ? "does not tell" : "tells") << " of a loss");
            if (k == Cb) MC_CHECK(got == id, "the trace of a received sample names sample " << got << " instead of " << id);
            const int a = std::exchange(armed, kOk);
            if (a == kOk) loss = false; else if (a == kTerminal) { on = false; for (auto& x : p[who].point) x = false; } else { loss = true; if (a == kLasting) p[who].point[k] = false; }
        }
        MC_CHECK(seen == w.d.local.size(), "trace point " << (seen < w.d.local.size() ? int(w.d.local[seen].first) : 0) << " is traced"); seen = w.d.local.size();
        MC_CHECK(w.d.next_local == armed, "the trace backend was not asked"); 
    }
    enum Op { kSub = 0, kUnsub = 2, kSet = 4, kUnset = 6, kFetch = 8, kSend = 10, kArm = 11, kOps = 14 };
    static std::string name(int o)
    {
        static const char* n[] = {"subscribe", "unsubscribe", "set handler", "unset handler", "fetch"};
        if (o < kSend) return std::string(n[o / 2]) + (o % 2 ? " (second proxy)" : ""); if (o == kSend) return "send";
        return std::string("the next trace is answered with a ") + kAnswerName[1 + o - kArm];
    }
    bool apply(int o) override
    {
        const int i = o % 2; auto& x = p[i]; auto& e = x.px->ev;
        if (o >= kArm) { if (armed != kOk || !on) return false; armed = 1 + o - kArm; w.d.next_local = armed; return true; }
        if (o == kSend)
        {
            if (sent >= 3) return false;
            MC_CHECK(sk->ev.Send(++sent).has_value(), "sending fails");
            std::vector<std::pair<int, int>> l; int c[2] = {p[0].called, p[1].called};
            for (int j = 0; j < 2; ++j) if (p[j].subscribed) { p[j].fresh = true; }
            for (int j = 0; j < 2; ++j) { const bool want = p[j].subscribed && p[j].handler; MC_CHECK(calls[j] == (want ? c[j] + 1 : c[j]), "a receive handler was called " << calls[j] - c[j] << " times"); p[j].called = calls[j]; if (want && p[j].wrapped) l.push_back({j, Handler}); }
            if (l.size() == 2 && order.size() == 2 && order[0] == 1) std::swap(l[0], l[1]);
            order.clear(); expect(l, 0); return true;
        }
        switch (o / 2)
        {
            case 0: if (x.subscribed) return false; MC_CHECK(e.Subscribe(1).has_value(), "cannot subscribe"); x.subscribed = true; x.fresh = sent > 0; expect({{i, Sub}}, 0); break;
            case 1: if (!x.subscribed) return false; e.Unsubscribe(); x.subscribed = false; x.handler = x.wrapped = false; x.fresh = false; expect({{i, Unsub}}, 0); dropped[i] = true; break;
            case 2:
            {
                if (x.handler || !x.subscribed) return false;
                MC_CHECK(e.SetReceiveHandler([this, i] { mc::ghost(&order); ++calls[i]; order.push_back(i); }).has_value(), "cannot set a handler"); x.handler = true; expect({{i, SetH}}, 0); x.wrapped = x.point[Handler]; dropped[i] = false; break;
            }
            case 3: if (!x.handler) return false; MC_CHECK(e.UnsetReceiveHandler().has_value(), "cannot unset the handler"); x.handler = x.wrapped = false; expect({{i, UnsetH}}, 0); break;
            case 4:
            {
                if (!x.subscribed) return false;
                std::uint32_t got = 0; { std::vector<Ptr> h; auto r = e.GetNewSamples([&](Ptr q) { got = *q; h.push_back(std::move(q)); }, 1); MC_CHECK(r.has_value(), "fetching fails"); }
                MC_CHECK(got == (x.fresh ? sent : 0u), "fetched sample " << got);
                std::vector<std::pair<int, int>> l{{i, Get}}; if (x.fresh) l.push_back({i, Cb});
                const std::uint32_t id = got ? stamp() : 0; x.fresh = false; expect(l, id); break;
            }
        }
        return true;
    }
    int calls[2]{0, 0}; std::vector<int> order; bool dropped[2]{false, false};
    // the newest sample's time stamp
    std::uint32_t stamp() { lola::ConsumerEventDataControlLocalView<> v{w.s.event(QualityType::kASIL_QM).data_control}; std::uint32_t m = 0; for (int i = 0; i < 3; ++i) { auto s = v[static_cast<lola::SlotIndexType>(i)]; if (!s.IsInvalid() && !s.IsInWriting()) m = std::max<std::uint32_t>(m, s.GetTimeStamp()); } return m; }
    std::string canon() override { std::ostringstream s; s << on << loss << armed << (sent > 0 ? sent : 0); for (auto& x : p) { s << "|" << x.subscribed << x.handler << x.wrapped << x.fresh; for (bool b : x.point) s << b; } return s.str(); }
    void finish() override { sent = std::min(sent, 2u); for (int o : {int(kSub), int(kSet), int(kSend), int(kFetch), kFetch + 1, int(kUnset), int(kUnsub)}) (void)apply(o); }
};
constexpr TP ConsumerSys::kind[];
MC_CASE(T02, consumer) { mc::bfs("a consumer's trace points and the trace backend's answers", mc::BfsConfig{mc::tier(8, 12)}, ConsumerSys::kOps, ConsumerSys::name, [] { return std::unique_ptr<mc::System>(new ConsumerSys); }); }

// A traced proxy can be moved like any other.
MC_CASE(T02, moved)
{
    mc::explore("a traced proxy is moved", mc::Config{0}, [] {
        Plan p; p.slots = 2; p.subs = 1; World w(p, true);
        auto sk = std::make_unique<Skel>(std::move(Skel::Create(w.s.provided()).value())); (void)sk->OfferService();
        alignas(Prox) unsigned char room[sizeof(Prox)];
        auto* a = new (room) Prox(std::move(Prox::Create(w.s.handle(false)).value()));
        int called = 0; const int when = mc::choose(3, "moved when");
        std::unique_ptr<Prox> b; auto move = [&] { b = std::make_unique<Prox>(std::move(*a)); a->~Prox(); std::memset(room, 0, sizeof room); };
        auto cur = [&]() -> Prox& { return b ? *b : *a; };
        if (when == 0) move();
        MC_CHECK(cur().ev.Subscribe(1).has_value(), "cannot subscribe"); if (when == 1) move();
        MC_CHECK(cur().ev.SetReceiveHandler([&] { ++called; }).has_value(), "cannot set a handler"); if (when == 2) move();
        w.d.local.clear(); MC_CHECK(sk->ev.Send(1u).has_value(), "sending fails");
        MC_CHECK(called == 1, "the receive handler is not called");
        MC_CHECK(w.d.local.size() == 1 && w.d.local[0].first == TP::kProxyEventRechdl, "the receive handler's call is not traced after its proxy was moved");
        w.d.local.clear(); std::uint32_t got = 0; { std::vector<Ptr> h; (void)cur().ev.GetNewSamples([&](Ptr q) { got = *q; h.push_back(std::move(q)); }, 1); }
        MC_CHECK(got == 1 && w.d.local.size() == 2, "fetching is traced " << w.d.local.size() << " times");
        cur().ev.Unsubscribe(); b.reset(); sk.reset();
    });
}

// The process creates a traced service, gives it up and creates it again.
MC_CASE(T02, created_again)
{
    mc::explore("a traced service is created again by its process", mc::Config{0}, [] {
        const int slots = 1 + mc::choose(2, "trace slots"), again = 1 + mc::choose(2, "created again"); const bool failed = mc::choose(2, "its trace points were disabled") != 0, room = mc::choose(2, "room for another service") != 0;
        Plan p; p.slots = 2; p.subs = 1; p.tracing_slots = slots;
        bool dead = false;
        {
            World w(p, false); w.process(room ? 16 : slots);   // the runtime makes room for what is configured
            auto life = [&] {
                auto sk = std::make_unique<Skel>(std::move(Skel::Create(w.s.provided()).value())); MC_CHECK(sk->OfferService().has_value(), "the service cannot be offered");
                for (int i = 0; i < 2; ++i)
                {
                    const std::size_t n = w.d.shm.size(); w.d.next = failed ? kLasting : kOk;
                    if (i) { auto a = sk->ev.Allocate(); MC_CHECK(a.has_value(), "no sample can be allocated"); if (!a.has_value()) return; auto q = std::move(a).value(); *q = 7; MC_CHECK(sk->ev.Send(std::move(q)).has_value(), "sending fails"); }
                    else MC_CHECK(sk->ev.Send(7u).has_value(), "sending fails");
                    w.d.next = kOk; MC_CHECK(w.d.shm.size() == n + (failed || i < slots ? 1 : 0), "the sample is traced " << w.d.shm.size() - n << " times");
                }
            };
            life();
            for (int i = 0; i < again && !dead; ++i) { if (room) life(); else dead = mc::dies([&] { life(); }); }
        }
        MC_CHECK(!dead, "a process that creates a traced service again terminates");
    });
}
}  // namespace
