// M06: the shared-memory sizes computed before an offer or a method subscription suffice for what is built in them.
#include "stack.h"
#include "score/memory/shared/pointer_arithmetic_util.h"
#include "score/mw/com/impl/bindings/lola/generic_skeleton_event.h"
#include "score/mw/com/impl/bindings/lola/skeleton.h"
#include "score/mw/com/impl/bindings/lola/skeleton_event.h"
#include "score/mw/com/impl/bindings/lola/shm_path_builder.h"
#include "score/mw/com/impl/bindings/lola/partial_restart_path_builder.h"
#include "score/mw/com/impl/bindings/lola/proxy.h"
#include "score/mw/com/impl/bindings/lola/proxy_method.h"
#include "score/mw/com/impl/field_tags_store.h"
#include "score/mw/com/impl/plumbing/skeleton_service_element_binding_factory_impl.h"

namespace
{
using namespace stack;
using score::memory::DataTypeSizeInfo;

template <std::size_t N, std::size_t A> struct alignas(A) Blob { unsigned char b[N]; };
enum class Ty { kU8, k3, kU64, k24, k16, k65, kWide };
constexpr const char* kTy[] = {"1 byte", "3 bytes", "8 aligned 8", "24 aligned 8", "16 aligned 16", "65 bytes", "32 aligned 32"};
enum class Kind { kEvent, kN, kG, kNG, kNS, kNGS, kGS };
constexpr const char* kKind[] = {"event", "field notifier", "field getter", "field notifier+getter", "field notifier+setter", "field all", "field getter+setter"};

struct El
{
    Kind kind{Kind::kEvent}; Ty ty{Ty::kU8}; int slots{1}, subs{1}, tracing{0}; bool subs_given{true};
    std::size_t gsize{0}, galign{0};   // generic
    std::string str() const
    {
        std::ostringstream o;
        if (galign) o << "generic event of " << gsize << "/" << galign; else o << kKind[int(kind)] << " of " << kTy[int(ty)];
        o << ", " << slots << " slots, " << (subs_given ? std::to_string(subs) : "no") << " subscribers, " << tracing << " tracing slots";
        return o.str();
    }
};

impl::FieldTagsStore tags(Kind k)
{
    using F = impl::FieldTagsStore;
    switch (k)
    {
        case Kind::kN: return F::Create<impl::WithNotifier>();
        case Kind::kG: return F::Create<impl::WithGetter>();
        case Kind::kNG: return F::Create<impl::WithNotifier, impl::WithGetter>();
        case Kind::kNS: return F::Create<impl::WithNotifier, impl::WithSetter>();
        case Kind::kGS: return F::Create<impl::WithGetter, impl::WithSetter>();
        default: return F::Create<impl::WithNotifier, impl::WithGetter, impl::WithSetter>();
    }
}

// One element of a provider, erased from its type.
struct Element
{
    std::function<bool()> send;
    std::unique_ptr<impl::SkeletonEventBindingBase> binding;
    std::size_t capacity{0};
};

template <class T> void typed(Element& e, const impl::InstanceIdentifier& id, impl::SkeletonBinding& sk, const std::string& name, const El& el)
{
    std::unique_ptr<impl::SkeletonEventBinding<T>> b;
    if (el.kind == Kind::kEvent)
        b = impl::CreateSkeletonEventOrField<impl::SkeletonEventBinding<T>, lola::SkeletonEvent<T>, impl::ServiceElementType::EVENT>(id, sk, name, {});
    else
        b = impl::CreateSkeletonEventOrField<impl::SkeletonEventBinding<T>, lola::SkeletonEvent<T>, impl::ServiceElementType::FIELD>(id, sk, name, tags(el.kind));
    e.binding = std::move(b);
}

struct World
{
    std::vector<El> els;
    fos::Os os; fake::Runtime rt; Bus bus; Sd sd;
    impl::ServiceTypeDeployment type; impl::ServiceInstanceDeployment inst;
    std::vector<std::string> names;
    static std::string name(std::size_t i, const El& el) { return std::string(el.kind == Kind::kEvent ? "e" : "f") + std::to_string(i); }
    static impl::LolaServiceTypeDeployment mt(const std::vector<El>& els)
    {
        impl::LolaServiceTypeDeployment d{7};
        for (std::size_t i = 0; i < els.size(); ++i) (els[i].kind == Kind::kEvent ? d.events_ : d.fields_).emplace(name(i, els[i]), static_cast<std::uint16_t>(i + 1));
        return d;
    }
    static impl::LolaServiceInstanceDeployment mi(const std::vector<El>& els)
    {
        impl::LolaServiceInstanceDeployment d{impl::LolaServiceInstanceId{5}};
        for (std::size_t i = 0; i < els.size(); ++i)
        {
            const auto& el = els[i];
            std::optional<std::uint8_t> subs; if (el.subs_given) subs = static_cast<std::uint8_t>(el.subs);
            impl::LolaEventInstanceDeployment ev{static_cast<std::uint16_t>(el.slots), subs, 1, false, static_cast<std::uint8_t>(el.tracing)};
            if (el.kind == Kind::kEvent) d.events_.emplace(name(i, el), ev);
            else { auto t = tags(el.kind); d.fields_.emplace(name(i, el), impl::LolaFieldInstanceDeployment{ev, t.HasGetter(), t.HasSetter()}); }
        }
        return d;
    }
    World(std::vector<El> e, bool asil_b, impl::ShmSizeCalculationMode mode)
        : els(std::move(e)), type(mt(els)),
          inst(impl::make_ServiceIdentifierType("svc"), mi(els), asil_b ? QualityType::kASIL_B : QualityType::kASIL_QM, impl::InstanceSpecifier::Create(std::string{"inst"}).value())
    {
        score::memory::shared::SharedMemoryFactory::Clear();
        score::memory::shared::MemoryResourceRegistry::getInstance().clear();
        vshim::Vfs::get().clear();
        for (const char* d : {"/tmp", "/dev/shm"}) vshim::Vfs::get().mkdirs(d, 0777);
        os.k.points = false;
        auto& r = rt.add(0, 1000, 42); r.messaging = &bus; r.mode = mode;
        rt.sd = &sd;
    }
    // the fill level of a shared-memory object against its computed size
    void fits(const std::string& path, const char* what)
    {
        auto r = score::memory::shared::SharedMemoryFactory::Open(path, true, std::nullopt);
        MC_CHECK(r != nullptr, "the " << what << " is not there");
        if (!r) return;
        const auto ino = os.k.names.find("S" + path);
        MC_CHECK(ino != os.k.names.end(), "the " << what << " has no file");
        if (ino == os.k.names.end()) return;
        const auto head = static_cast<std::size_t>(static_cast<const char*>(r->getUsableBaseAddress()) - static_cast<const char*>(r->getBaseAddress()));
        MC_CHECK(head + r->GetUserAllocatedBytes() <= static_cast<std::size_t>(ino->second->size), "the " << what << " is overfull");
    }
    void run()
    {
        const auto id = impl::make_InstanceIdentifier(inst, type);
        auto sk = lola::Skeleton::Create(id, score::filesystem::FilesystemFactory{}.CreateInstance(), std::make_unique<lola::ShmPathBuilder>(7), std::make_unique<lola::PartialRestartPathBuilder>(7));
        MC_CHECK(sk != nullptr, "the skeleton is not created");
        if (!sk) return;
        std::vector<Element> es(els.size());
        impl::SkeletonBinding::SkeletonEventBindings events; impl::SkeletonBinding::SkeletonFieldBindings fields;
        for (std::size_t i = 0; i < els.size(); ++i) names.push_back(name(i, els[i]));
        for (std::size_t i = 0; i < els.size(); ++i)
        {
            const auto& el = els[i]; auto& e = es[i];
            if (el.galign)
            {
                auto p = impl::detail::CreateSkeletonEventProperties(mi(els).events_.at(names[i]), {});
                e.binding = std::make_unique<lola::GenericSkeletonEvent>(*sk, names[i], p, lola::ElementFqId{7, static_cast<std::uint16_t>(i + 1), 5, impl::ServiceElementType::EVENT}, DataTypeSizeInfo{el.gsize, el.galign});
            }
            else switch (el.ty)
            {
                case Ty::kU8: typed<std::uint8_t>(e, id, *sk, names[i], el); break;
                case Ty::k3: typed<Blob<3, 1>>(e, id, *sk, names[i], el); break;
                case Ty::kU64: typed<std::uint64_t>(e, id, *sk, names[i], el); break;
                case Ty::k24: typed<Blob<24, 8>>(e, id, *sk, names[i], el); break;
                case Ty::k16: typed<Blob<16, 16>>(e, id, *sk, names[i], el); break;
                case Ty::k65: typed<Blob<65, 1>>(e, id, *sk, names[i], el); break;
                case Ty::kWide: typed<Blob<32, 32>>(e, id, *sk, names[i], el); break;
            }
            MC_CHECK(e.binding != nullptr, "an element is not created");
            if (!e.binding) return;
            (el.kind == Kind::kEvent ? events : fields).emplace(names[i], *e.binding);
        }
        const auto r = sk->PrepareOffer(events, fields, std::nullopt);
        MC_CHECK(r.has_value(), "the offer is refused");
        if (r.has_value())
        {
            for (auto* m : {&events, &fields}) for (auto& b : *m) MC_CHECK(b.second.get().PrepareOffer().has_value(), "offering an element fails");
            lola::ShmPathBuilder p{7};
            fits(p.GetDataChannelShmName(5), "data object");
            fits(p.GetControlChannelShmName(5, QualityType::kASIL_QM), "QM control object");
            if (inst.asilLevel_ == QualityType::kASIL_B) fits(p.GetControlChannelShmName(5, QualityType::kASIL_B), "ASIL-B control object");
            for (auto* m : {&events, &fields}) for (auto& b : *m) b.second.get().PrepareStopOffer();
        }
        sk->PrepareStopOffer(std::nullopt);
        es.clear();
    }
};

// the elements a service is composed of
std::vector<El> typed_elements(bool deep)
{
    std::vector<El> v;
    const std::vector<Ty> tys = deep ? std::vector<Ty>{Ty::kU8, Ty::k3, Ty::kU64, Ty::k24, Ty::k16, Ty::k65} : std::vector<Ty>{Ty::kU8, Ty::k16, Ty::k65};
    for (auto t : tys)
        for (int k = 0; k <= int(Kind::kGS); ++k)
            for (int slots : deep ? std::vector<int>{1, 2, 7} : std::vector<int>{1, 2})
            {
                El e; e.kind = Kind(k); e.ty = t; e.slots = slots; e.subs = slots == 2 ? 3 : 1; e.tracing = slots == 2 ? 1 : 0;
                v.push_back(e);
            }
    for (auto k : {Kind::kEvent, Kind::kNG}) for (int slots : {1, 2}) { El e; e.kind = k; e.ty = Ty::kWide; e.slots = slots; v.push_back(e); }
    for (auto k : {Kind::kG, Kind::kGS}) { El e; e.kind = k; e.ty = Ty::k65; e.slots = 0; v.push_back(e); }
    for (auto t : {Ty::kU8, Ty::k24}) for (auto k : {Kind::kG, Kind::kGS}) { El e; e.kind = k; e.ty = t; e.subs_given = false; v.push_back(e); }
    return v;
}
std::vector<El> generic_elements()
{
    std::vector<El> v;
    const std::pair<std::size_t, std::size_t> sa[] = {{1, 1}, {1, 8}, {3, 4}, {8, 8}, {9, 8}, {16, 16}, {17, 16}, {65, 2}};
    for (auto& p : sa) for (int slots : {1, 2, 5}) { El e; e.gsize = p.first; e.galign = p.second; e.slots = slots; e.subs = slots == 2 ? 3 : 1; e.tracing = slots == 2 ? 1 : 0; v.push_back(e); }
    return v;
}
void compose(const std::vector<El>& table, int max)
{
    const bool b = mc::choose(2, "quality");
    const auto mode = mc::choose(2, "mode") ? impl::ShmSizeCalculationMode::kAnalysis : impl::ShmSizeCalculationMode::kSimulation;
    const int n = 1 + mc::choose(max, "elements");
    std::vector<El> els;
    for (int i = 0; i < n; ++i) els.push_back(table[mc::choose(static_cast<int>(table.size()), "element")]);
    mc::log(std::string(b ? "ASIL-B" : "QM") + (mode == impl::ShmSizeCalculationMode::kAnalysis ? ", by analysis" : ", by simulation"));
    for (auto& e : els) mc::log(e.str());
    World w{els, b, mode}; w.run();
}
// The argument and result storage of the methods of one proxy.
using Info = lola::TypeErasedCallQueue::TypeErasedElementInfo;
std::vector<Info> infos()
{
    const std::optional<DataTypeSizeInfo> t[] = {std::nullopt, DataTypeSizeInfo{1, 1}, DataTypeSizeInfo{8, 8}, DataTypeSizeInfo{24, 8}, DataTypeSizeInfo{6, 2}, DataTypeSizeInfo{16, 16}, DataTypeSizeInfo{65, 1}, DataTypeSizeInfo{32, 32}};
    std::vector<Info> v;
    for (auto& a : t) for (auto& r : t) for (std::size_t q : {1, 3}) v.push_back(Info{a, r, q});
    return v;
}
void methods(const std::vector<Info>& table, int max)
{
    const int n = 1 + mc::choose(max, "methods");
    Plan p; p.methods = true; Stack st{p};
    const auto id = st.provided();
    auto sk = lola::Skeleton::Create(id, score::filesystem::FilesystemFactory{}.CreateInstance(), std::make_unique<lola::ShmPathBuilder>(7), std::make_unique<lola::PartialRestartPathBuilder>(7));
    impl::SkeletonBinding::SkeletonEventBindings none;
    MC_CHECK(sk && sk->PrepareOffer(none, none, std::nullopt).has_value(), "the offer is refused");
    const lola::SkeletonInstanceIdentifier sid{7, 5};
    score::safecpp::Scope<> scope;
    st.bus.subscribed.insert_or_assign(Bus::k(QualityType::kASIL_QM, sid), lola::IMessagePassingService::ServiceMethodSubscribedHandler{scope, [](lola::ProxyInstanceIdentifier, uid_t, pid_t) -> score::Result<void> { return {}; }});
    {
        auto px = lola::Proxy::Create(st.handle(false));
        MC_CHECK(px != nullptr, "the proxy is not created");
        if (!px) return;
        std::vector<std::unique_ptr<lola::ProxyMethod>> ms; std::vector<Info> in;
        for (int i = 0; i < 2; ++i)
        {
            // a method that is not asked for has neither arguments nor a result
            in.push_back(i < n ? table[mc::choose(static_cast<int>(table.size()), "method")] : Info{{}, {}, 1});
            auto show = [](const std::optional<DataTypeSizeInfo>& t) { return t ? std::to_string(t->Size()) + "/" + std::to_string(t->Alignment()) : std::string{"none"}; };
            mc::log("method with arguments " + show(in[i].in_arg_type_info) + ", result " + show(in[i].return_type_info) + ", queue " + std::to_string(in[i].queue_size));
            ms.push_back(std::make_unique<lola::ProxyMethod>(*px, lola::ProxyMethodInstanceIdentifier{{42, 0}, {static_cast<std::uint16_t>(4 + i), impl::MethodType::kMethod}}, in[i]));
        }
        MC_CHECK(px->SetupMethods().has_value(), "setting up the methods fails");
        // every buffer lies in the shared-memory object, aligned, apart from all others
        std::vector<std::pair<const std::byte*, const std::byte*>> taken;
        for (int i = 0; i < 2; ++i)
            for (std::size_t q = 0; q < in[i].queue_size; ++q)
                for (int r = 0; r < 2; ++r)
                {
                    const auto& t = r ? in[i].return_type_info : in[i].in_arg_type_info;
                    if (!t) continue;
                    auto b = r ? ms[i]->GetReturnValueBuffer(q) : ms[i]->GetInArgsBuffer(q);
                    MC_CHECK(b.has_value(), "there is no buffer for a call");
                    if (!b.has_value()) continue;
                    MC_CHECK(static_cast<std::size_t>(b->size()) == t->Size(), "a buffer of " << b->size() << " bytes for a type of " << t->Size());
                    MC_CHECK(reinterpret_cast<std::uintptr_t>(b->data()) % t->Alignment() == 0, "a buffer for a type aligned " << t->Alignment() << " is not aligned");
                    for (auto& x : taken) MC_CHECK(b->data() + b->size() <= x.first || x.second <= b->data(), "two buffers overlap");
                    taken.push_back({b->data(), b->data() + b->size()});
                }
        if (!taken.empty())
        {
            auto r = score::memory::shared::MemoryResourceRegistry::getInstance().GetBoundsFromAddress(taken[0].first);
            MC_CHECK(r.has_value(), "a buffer lies outside every memory region");
            if (r.has_value()) for (auto& x : taken)
                MC_CHECK(reinterpret_cast<std::uintptr_t>(x.first) >= r->GetStartAddress() && reinterpret_cast<std::uintptr_t>(x.second) <= r->GetEndAddress(), "a buffer reaches outside its shared-memory object");
        }
        px->PrepareDeinitialize(); px->FinalizeDeinitialize();
        ms.clear();
    }
    sk->PrepareStopOffer(std::nullopt);
}
}  // namespace

MC_CASE(M06, offers)
{
    mc::explore("one or two typed elements", {0}, [] { compose(typed_elements(mc::thorough()), 2); });
    mc::explore("one or two generic elements", {0}, [] { compose(generic_elements(), 2); });
    if (mc::thorough()) mc::explore("up to three typed elements", {0}, [] { compose(typed_elements(false), 3); });
}
MC_CASE(M06, methods) { mc::explore("one or two methods", {0}, [] { methods(infos(), 2); }); }
