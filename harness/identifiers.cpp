// C02: identifiers: grammar, serialisation, comparison.
#include "mc.h"
#include "score/mw/com/impl/bindings/lola/element_fq_id.h"
#include "score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.h"
#include "score/mw/com/impl/bindings/lola/methods/unique_method_identifier.h"
#include "score/mw/com/impl/bindings/lola/proxy_instance_identifier.h"
#include "score/mw/com/impl/bindings/lola/skeleton_instance_identifier.h"
#include "score/mw/com/impl/com_error.h"
#include "score/mw/com/impl/configuration/configuration.h"
#include "score/mw/com/impl/enriched_instance_identifier.h"
#include "score/mw/com/impl/handle_type.h"
#include "score/mw/com/impl/instance_identifier.h"
#include "score/mw/com/impl/instance_specifier.h"
#include <cctype>
#include <cstring>
#include <map>
#include <sstream>

namespace score::mw::com::impl
{
class InstanceIdentifierAttorney
{
  public:
    static void Set(Configuration* c) { InstanceIdentifier::SetConfiguration(c); }
};
}  // namespace score::mw::com::impl
using namespace score::mw::com::impl;
namespace lola = score::mw::com::impl::lola;
namespace
{
// ---- instance specifiers ----
bool grammar(const std::string& s)
{   // an independent acceptor: states start, after a name character, after '/', dead
    enum { Start, Name, Slash, Dead } st = Start;
    for (char ch : s)
    {
        bool alpha = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '_', digit = ch >= '0' && ch <= '9';
        if (ch == '/') st = (st == Slash || st == Dead) ? Dead : Slash;
        else if (alpha || (digit && st != Start)) st = st == Dead ? Dead : Name;
        else st = Dead;
        if (st == Dead) return false;
    }
    return st == Name;
}
std::string vis(const std::string& s) { std::ostringstream o; for (char c : s) { if (c >= ' ' && c < 127) o << c; else o << "\\x" << std::hex << (static_cast<int>(c) & 0xff) << std::dec; } return o.str(); }
void one_specifier(const std::string& s)
{
    auto r = InstanceSpecifier::Create(std::string{s});
    bool want = grammar(s);
    MC_CHECK(r.has_value() == want, "specifier '" << vis(s) << "' was " << (r.has_value() ? "accepted" : "refused"));
    if (r.has_value()) MC_CHECK(std::string(r.value().ToString()) == s, "specifier '" << vis(s) << "' reads '" << vis(std::string(r.value().ToString())) << "'");
    else if (!want) MC_CHECK(r.error() == ComErrc::kInvalidMetaModelShortname, "specifier '" << vis(s) << "' refused for another reason");
}
void specifiers_case()
{
    static const std::string alphabet = "aZ_/09 .-";
    int len = mc::tier(6, 7);
    mc::explore("all specifiers up to the length bound", mc::Config{0}, [=] {
        int a = mc::choose(static_cast<int>(alphabet.size()) + 1, "first"), b = a ? mc::choose(static_cast<int>(alphabet.size()) + 1, "second") : 0;
        std::string p; if (a) p += alphabet[static_cast<std::size_t>(a - 1)]; if (b) p += alphabet[static_cast<std::size_t>(b - 1)];
        one_specifier(p);
        if (!b) return;
        // all continuations
        std::vector<std::size_t> idx; std::string s = p;
        std::function<void()> rec = [&] { if (static_cast<int>(s.size()) >= len) return; for (char c : alphabet) { s.push_back(c); one_specifier(s); rec(); s.pop_back(); } };
        rec();
    });
    mc::explore("every byte at every position", mc::Config{0}, [] {
        static const std::vector<std::string> base{"a", "/a", "ab/c", "a/b/cd", "_x9/y"};
        const std::string& b = base[static_cast<std::size_t>(mc::choose(static_cast<int>(base.size()), "base"))];
        auto pos = static_cast<std::size_t>(mc::choose(static_cast<int>(b.size()) + 1, "position")); bool insert = mc::choose(2, "insert");
        for (int c = 0; c < 256; ++c) { std::string s = b; if (insert || pos == b.size()) s.insert(pos, 1, static_cast<char>(c)); else s[pos] = static_cast<char>(c); one_specifier(s); }
        std::string lng = b; while (lng.size() < 5000) lng += "/" + b.substr(b[0] == '/'); one_specifier(lng); one_specifier(lng + "/"); one_specifier(lng + "//x");
    });
    mc::explore("comparison of specifiers", mc::Config{0}, [] {
        static const std::vector<std::string> v{"a", "A", "b", "a/b", "a_b", "/a", "a0", "aa", "ab", "_", "/_", "a/b/c", "z"};
        int i = mc::choose(static_cast<int>(v.size()), "left"), j = mc::choose(static_cast<int>(v.size()), "right");
        const std::string &l = v[static_cast<std::size_t>(i)], &r = v[static_cast<std::size_t>(j)];
        auto x = InstanceSpecifier::Create(std::string{l}).value(), y = InstanceSpecifier::Create(std::string{r}).value();
        std::string_view lv{l}, rv{r};
        MC_CHECK((x == y) == (l == r) && (x != y) == (l != r) && (x < y) == (l < r), "comparison of " << l << " and " << r);
        MC_CHECK((x == rv) == (l == r) && (lv == y) == (l == r) && (x != rv) == (l != r) && (lv != y) == (l != r), "comparison of " << l << " and " << r << " with text");
        MC_CHECK((std::hash<InstanceSpecifier>{}(x) == std::hash<InstanceSpecifier>{}(y)) == (l == r), "hashes of " << l << " and " << r);
        auto z = x; z = std::move(y); MC_CHECK(z == rv, "assignment of a specifier");
    });
}
// ---- small identifiers ----
template <class A, class EQ, class LT> void relation(const char* what, const std::vector<A>& v, EQ eq, LT lt)
{
    for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = 0; j < v.size(); ++j)
    {
        MC_CHECK((v[i] == v[j]) == eq(i, j), what << " " << i << " and " << j << " compare equal: " << (v[i] == v[j]));
        MC_CHECK((v[i] < v[j]) == lt(i, j), what << " " << i << " is less than " << j << ": " << (v[i] < v[j]));
    }
}
void small_case()
{
    mc::explore("versions and service types", mc::Config{0}, [] {
        static const std::vector<std::uint32_t> n{0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff};
        static const std::vector<std::string> names{"a", "/a/b", "b", "ab", ""};
        struct K { std::string s; std::uint32_t a, b; };
        std::vector<K> k; std::vector<ServiceIdentifierType> v; std::vector<ServiceVersionType> w; std::vector<K> kw;
        for (auto a : n) for (auto b : n) { w.push_back(make_ServiceVersionType(a, b)); kw.push_back({"", a, b}); }
        int ni = mc::choose(static_cast<int>(names.size()), "name");
        for (int q = 0; q < 2; ++q) { auto& s = names[static_cast<std::size_t>(q ? 0 : ni)]; for (auto a : n) for (auto b : n) { v.push_back(make_ServiceIdentifierType(s, a, b)); k.push_back({s, a, b}); } }
        auto key = [](const K& x) { return std::tie(x.s, x.a, x.b); };
        relation("version", w, [&](auto i, auto j) { return key(kw[i]) == key(kw[j]); }, [&](auto i, auto j) { return key(kw[i]) < key(kw[j]); });
        relation("service type", v, [&](auto i, auto j) { return key(k[i]) == key(k[j]); }, [&](auto i, auto j) { return key(k[i]) < key(k[j]); });
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            MC_CHECK(std::string(v[i].ToString()) == k[i].s, "name of a service type");
            ServiceIdentifierTypeView view{v[i]}; ServiceVersionTypeView vv{view.GetVersion()};
            MC_CHECK(view.getInternalTypeName() == k[i].s && vv.getMajor() == k[i].a && vv.getMinor() == k[i].b, "content of service type " << k[i].s << " " << k[i].a << "." << k[i].b);
            ServiceIdentifierType r{v[i].Serialize()};
            MC_CHECK(r == v[i] && r.ToHashString() == v[i].ToHashString() && std::hash<ServiceIdentifierType>{}(r) == std::hash<ServiceIdentifierType>{}(v[i]) && r.ToString() == v[i].ToString(), "service type " << k[i].s << " " << k[i].a << "." << k[i].b << " changes on a round trip");
            for (std::size_t j = 0; j < v.size(); ++j) MC_CHECK((v[i].ToHashString() == v[j].ToHashString()) == (key(k[i]) == key(k[j])), "hash strings of service types " << i << " and " << j);
        }
        for (std::size_t i = 0; i < w.size(); ++i) { ServiceVersionType r{w[i].Serialize()}; MC_CHECK(r == w[i] && r.ToString() == w[i].ToString(), "a version changes on a round trip"); }
    });
    mc::explore("instance ids", mc::Config{0}, [] {
        int hi = mc::choose(256, "high byte");
        auto hex = [](int x) { char b[8]; snprintf(b, sizeof b, "%04x", x); return std::string(b); };
        ServiceInstanceId blank{score::cpp::blank{}}, blank2{blank.Serialize()};
        MC_CHECK(blank == blank2 && std::string(blank.ToHashString()) == "1" && !(blank < blank2), "the instance id without binding");
        for (int lo = 0; lo < 256; ++lo)
        {
            int x = hi << 8 | lo; LolaServiceInstanceId a{static_cast<std::uint16_t>(x)};
            MC_CHECK(a.GetId() == x && std::string(a.ToHashString()) == hex(x), "instance id " << x << " hashes to " << std::string(a.ToHashString()));
            LolaServiceInstanceId r{a.Serialize()}; MC_CHECK(r == a && r.ToHashString() == a.ToHashString(), "instance id " << x << " changes on a round trip");
            ServiceInstanceId s{a}, t{s.Serialize()};
            MC_CHECK(s == t && std::string(s.ToHashString()) == "0" + hex(x) && std::string(t.ToHashString()) == "0" + hex(x) && s.ToHashString().size() == ServiceInstanceId::hashStringSize, "service instance id " << x);
            MC_CHECK(GetServiceInstanceIdBinding<LolaServiceInstanceId>(t).GetId() == x && !(s == blank) && !(blank == s) && !(s < t) && !((s < blank) && (blank < s)), "service instance id " << x << " against none");
            for (int y : {0, 1, 255, 256, x ^ 1, x ^ 256, 32768, 65535})
            {
                LolaServiceInstanceId b{static_cast<std::uint16_t>(y)}; ServiceInstanceId u{b};
                MC_CHECK((a == b) == (x == y) && (a < b) == (x < y) && (s == u) == (x == y) && (s < u) == (x < y), "instance ids " << x << " and " << y);
            }
            ServiceTypeDeployment d{LolaServiceTypeDeployment{static_cast<std::uint16_t>(x)}}, e{d.Serialize()};
            MC_CHECK(std::string(d.ToHashString()) == "0" + hex(x) && d.ToHashString().size() == ServiceTypeDeployment::hashStringSize && std::string(e.ToHashString()) == "0" + hex(x), "type deployment " << x << " hashes to " << std::string(d.ToHashString()));
        }
        ServiceTypeDeployment nb{score::cpp::blank{}}, nb2{nb.Serialize()}; MC_CHECK(nb == nb2 && std::string(nb.ToHashString()) == "1", "the type deployment without binding");
    });
    mc::explore("quality levels", mc::Config{0}, [] {
        QualityType q[] = {QualityType::kInvalid, QualityType::kASIL_QM, QualityType::kASIL_B}; const char* n[] = {"kInvalid", "kASIL_QM", "kASIL_B"}; const char* s[] = {"Invalid", "QM", "B"};
        for (int i = 0; i < 3; ++i)
        {
            MC_CHECK(ToString(q[i]) == n[i] && FromString(n[i]) == q[i], "text of quality " << n[i]); std::ostringstream o; o << q[i]; MC_CHECK(o.str() == s[i], "printed quality " << o.str());
            for (int j = 0; j < 3; ++j) MC_CHECK(areCompatible(q[i], q[j]) == (i == j), "compatibility of " << n[i] << " and " << n[j]);
        }
        for (const char* b : {"", "QM", "B", "kASIL_b", "kASIL_QM ", "kASIL_"}) MC_CHECK(mc::dies([&] { FromString(b); }), "'" << b << "' read as a quality");
        std::ostringstream o; o << ShmSizeCalculationMode::kSimulation << " " << ShmSizeCalculationMode::kAnalysis; MC_CHECK(o.str() == "SIMULATION ANALYSIS", "printed modes " << o.str());
    });
    mc::explore("element and proxy identifiers", mc::Config{0}, [] {
        static const std::vector<std::uint16_t> n{0, 1, 255, 256, 65535};
        struct K { std::uint16_t s, i, e; }; std::vector<K> k; std::vector<lola::ElementFqId> v;
        auto type = static_cast<ServiceElementType>(1 + mc::choose(2, "type"));
        for (auto s : n) for (auto i : n) for (auto e : n) { k.push_back({s, i, e}); v.emplace_back(s, e, i, type); }
        auto key = [](const K& x) { return std::tie(x.s, x.i, x.e); };
        relation("element", v, [&](auto i, auto j) { return key(k[i]) == key(k[j]); }, [&](auto i, auto j) { return key(k[i]) < key(k[j]); });
        std::map<std::size_t, std::size_t> hs; std::map<std::string, std::size_t> ts;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            MC_CHECK(v[i].service_id_ == k[i].s && v[i].element_id_ == k[i].e && v[i].instance_id_ == k[i].i && v[i].element_type_ == type, "content of an element id");
            MC_CHECK(lola::IsElementEvent(v[i]) == (type == ServiceElementType::EVENT) && lola::IsElementField(v[i]) == (type == ServiceElementType::FIELD), "kind of an element id");
            MC_CHECK(hs.emplace(std::hash<lola::ElementFqId>{}(v[i]), i).second, "two elements share a hash value"); MC_CHECK(ts.emplace(v[i].ToString(), i).second, "two elements print alike");
            lola::ElementFqId c{k[i].s, k[i].e, k[i].i, static_cast<std::uint8_t>(type)}; MC_CHECK(c == v[i] && std::hash<lola::ElementFqId>{}(c) == std::hash<lola::ElementFqId>{}(v[i]), "equal elements differ");
        }
        for (int t = static_cast<int>(ServiceElementType::FIELD) + 1; t < 256; ++t) MC_CHECK(mc::dies([&] { lola::ElementFqId x{1, 2, 3, static_cast<std::uint8_t>(t)}; }), "element type " << t << " accepted");
        // proxies and their methods
        std::map<std::size_t, int> ph; static const std::vector<std::uint32_t> app{0, 1, 65535, 65536, 0xffffffff};
        std::vector<lola::ProxyInstanceIdentifier> ps; for (auto a : app) for (auto c : n) ps.push_back({a, c});
        std::vector<lola::UniqueMethodIdentifier> us; for (auto m : n) for (auto t : {MethodType::kUnknown, MethodType::kMethod, MethodType::kGet, MethodType::kSet}) us.push_back({m, t});
        for (std::size_t i = 0; i < ps.size(); ++i) for (std::size_t j = 0; j < ps.size(); ++j)
        {
            MC_CHECK((ps[i] == ps[j]) == (i == j), "proxy identifiers " << i << " and " << j);
            MC_CHECK((std::hash<lola::ProxyInstanceIdentifier>{}(ps[i]) == std::hash<lola::ProxyInstanceIdentifier>{}(ps[j])) == (i == j), "hashes of proxy identifiers " << i << " and " << j);
        }
        for (std::size_t i = 0; i < us.size(); ++i) for (std::size_t j = 0; j < us.size(); ++j)
        {
            MC_CHECK((us[i] == us[j]) == (i == j) && (us[i] != us[j]) == (i != j), "method identifiers " << i << " and " << j);
            MC_CHECK((std::hash<lola::UniqueMethodIdentifier>{}(us[i]) == std::hash<lola::UniqueMethodIdentifier>{}(us[j])) == (i == j), "hashes of method identifiers " << i << " and " << j);
            for (std::size_t p : {std::size_t{0}, std::size_t{1}, ps.size() - 1}) for (std::size_t q : {std::size_t{0}, std::size_t{5}, ps.size() - 1})
            {
                lola::ProxyMethodInstanceIdentifier x{ps[p], us[i]}, y{ps[q], us[j]};
                MC_CHECK((x == y) == (p == q && i == j), "proxy method identifiers"); if (p == q && i == j) MC_CHECK(std::hash<lola::ProxyMethodInstanceIdentifier>{}(x) == std::hash<lola::ProxyMethodInstanceIdentifier>{}(y), "hashes of equal proxy method identifiers");
            }
        }
        std::vector<lola::SkeletonInstanceIdentifier> ss; for (auto a : n) for (auto c : n) ss.push_back({a, c});
        for (std::size_t i = 0; i < ss.size(); ++i) for (std::size_t j = 0; j < ss.size(); ++j) { MC_CHECK((ss[i] == ss[j]) == (i == j), "skeleton identifiers " << i << " and " << j); MC_CHECK((std::hash<lola::SkeletonInstanceIdentifier>{}(ss[i]) == std::hash<lola::SkeletonInstanceIdentifier>{}(ss[j])) == (i == j), "hashes of skeleton identifiers " << i << " and " << j); }
    });
}
// ---- instance identifiers ----
struct World
{
    std::unique_ptr<ServiceTypeDeployment> type; std::unique_ptr<ServiceInstanceDeployment> inst;
    std::unique_ptr<Configuration> conf;
    InstanceIdentifier id() const { return make_InstanceIdentifier(*inst, *type); }
    World() = default; World(World&&) = default;
    ~World() { InstanceIdentifierAttorney::Set(nullptr); }
};
void fresh(World& w) { w.conf = std::make_unique<Configuration>(Configuration::ServiceTypeDeployments{}, Configuration::ServiceInstanceDeployments{}, GlobalConfiguration{}, TracingConfiguration{}); InstanceIdentifierAttorney::Set(w.conf.get()); }
template <class T> std::optional<T> maybe(const char* what, std::vector<T> v) { int c = mc::choose(static_cast<int>(v.size()) + 1, what); return c ? std::optional<T>(v[static_cast<std::size_t>(c - 1)]) : std::nullopt; }
LolaEventInstanceDeployment event(int k, std::uint8_t tracing = 0)
{
    if (k == 0) return LolaEventInstanceDeployment{{}, {}, {}, false, tracing};
    if (k == 1) return LolaEventInstanceDeployment{std::uint16_t{65535}, std::uint8_t{255}, std::uint8_t{255}, true, tracing};
    return LolaEventInstanceDeployment{std::uint16_t{0}, std::uint8_t{0}, std::uint8_t{1}, true, tracing};
}
World world(bool elements_half, std::uint8_t tracing = 0)
{
    World w; LolaServiceInstanceDeployment l; std::string name = "/t"; std::uint32_t ma = 1, mi = 0; std::string sp = "a/b"; QualityType q = QualityType::kASIL_QM;
    LolaServiceTypeDeployment t{7, {{"e", 1}}, {{"f", 2}}, {{"m", 3}}};
    if (elements_half)
    {
        int ne = mc::choose(4, "event kind"), nf = mc::choose(4, "field kind"), nm = mc::choose(4, "method kind");
        l.instance_id_ = LolaServiceInstanceId{9};
        if (ne) l.events_.emplace("e", event(ne - 1, tracing)); if (ne == 2) l.events_.emplace("e2", event(2));
        if (nf) l.fields_.emplace("f", LolaFieldInstanceDeployment{event(nf - 1, tracing), nf != 1, nf == 3}); if (nf == 3) l.fields_.emplace("e", LolaFieldInstanceDeployment{event(0), false, true});
        if (nm) l.methods_.emplace("m", nm == 1 ? LolaMethodInstanceDeployment{{}, true} : LolaMethodInstanceDeployment{std::uint8_t(nm == 2 ? 0 : 255), nm == 3}); if (nm == 3) l.methods_.emplace("m2", LolaMethodInstanceDeployment{std::uint8_t{1}, true});
        int nt = mc::choose(3, "type shape");
        if (nt == 1) t = LolaServiceTypeDeployment{0}; else if (nt == 2) t = LolaServiceTypeDeployment{65535, {{"e", 65535}, {"e2", 0}}, {{"e", 4}, {"f", 5}}, {{"m", 6}, {"m2", 8}}};
    }
    else
    {
        auto id = maybe<std::uint16_t>("instance id", {0, 10, 65535}); if (id) l.instance_id_ = LolaServiceInstanceId{*id};
        l.shared_memory_size_ = maybe<std::size_t>("memory", {0, ~std::size_t{0}}); l.control_asil_b_memory_size_ = maybe<std::size_t>("B", {4294967296u}); l.control_qm_memory_size_ = maybe<std::size_t>("QM", {5});
        l.strict_permissions_ = mc::choose(2, "strict");
        int u = mc::choose(4, "users"); if (u & 1) l.allowed_consumer_ = {{QualityType::kASIL_QM, {1, 4294967295u}}, {QualityType::kASIL_B, {}}}; if (u & 2) l.allowed_provider_ = {{QualityType::kASIL_B, {0, 2, 3}}};
        int iv = mc::choose(3, "inter-VM"); l.inter_vm_support_ = iv > 0; l.inter_vm_forwarded_ = iv > 1;
        int nt = mc::choose(3, "name"); if (nt == 1) { name = "/bmw/x/Y"; ma = 0; mi = 4294967295u; sp = "/q"; q = QualityType::kASIL_B; } else if (nt == 2) { name = ""; ma = 4294967295u; sp = "_"; q = QualityType::kInvalid; }
    }
    w.type = std::make_unique<ServiceTypeDeployment>(t);
    w.inst = std::make_unique<ServiceInstanceDeployment>(make_ServiceIdentifierType(name, ma, mi), l, q, InstanceSpecifier::Create(std::string{sp}).value());
    return w;
}
bool same_event(const LolaEventInstanceDeployment& a, const LolaEventInstanceDeployment& b) { return a.GetNumberOfSampleSlotsExcludingTracingSlot() == b.GetNumberOfSampleSlotsExcludingTracingSlot() && a.max_subscribers_ == b.max_subscribers_ && a.max_concurrent_allocations_ == b.max_concurrent_allocations_ && a.enforce_max_samples_ == b.enforce_max_samples_; }
// Content, attribute by attribute (tracing is never serialised).
void same_content(const ServiceInstanceDeployment& a, const ServiceInstanceDeployment& b, const ServiceTypeDeployment& ta, const ServiceTypeDeployment& tb)
{
    auto &l = std::get<LolaServiceInstanceDeployment>(a.bindingInfo_), &m = std::get<LolaServiceInstanceDeployment>(b.bindingInfo_);
    MC_CHECK(a.service_ == b.service_ && a.service_.ToString() == b.service_.ToString() && a.asilLevel_ == b.asilLevel_ && a.instance_specifier_ == b.instance_specifier_, "service, quality or specifier changed on a round trip");
    MC_CHECK(l.instance_id_.has_value() == m.instance_id_.has_value() && (!l.instance_id_ || l.instance_id_->GetId() == m.instance_id_->GetId()), "the instance id changed on a round trip");
    MC_CHECK(l.shared_memory_size_ == m.shared_memory_size_ && l.control_asil_b_memory_size_ == m.control_asil_b_memory_size_ && l.control_qm_memory_size_ == m.control_qm_memory_size_, "memory sizes changed on a round trip");
    MC_CHECK(l.strict_permissions_ == m.strict_permissions_ && l.allowed_consumer_ == m.allowed_consumer_ && l.allowed_provider_ == m.allowed_provider_, "permissions changed on a round trip");
    MC_CHECK(l.inter_vm_support_ == m.inter_vm_support_ && l.inter_vm_forwarded_ == m.inter_vm_forwarded_, "inter-VM flags changed on a round trip");
    bool ok = l.events_.size() == m.events_.size() && l.fields_.size() == m.fields_.size() && l.methods_.size() == m.methods_.size();
    for (auto& e : l.events_) { auto it = m.events_.find(e.first); ok = ok && it != m.events_.end() && same_event(e.second, it->second) && it->second.GetNumberOfTracingSlots() == 0; }
    for (auto& f : l.fields_) { auto it = m.fields_.find(f.first); ok = ok && it != m.fields_.end() && same_event(f.second.lola_event_instance_deployment_, it->second.lola_event_instance_deployment_) && f.second.use_get_if_available_ == it->second.use_get_if_available_ && f.second.use_set_if_available_ == it->second.use_set_if_available_; }
    for (auto& x : l.methods_) { auto it = m.methods_.find(x.first); ok = ok && it != m.methods_.end() && x.second.queue_size_ == it->second.queue_size_ && x.second.enabled_ == it->second.enabled_; }
    MC_CHECK(ok, "elements changed on a round trip");
    auto &p = std::get<LolaServiceTypeDeployment>(ta.binding_info_), &q = std::get<LolaServiceTypeDeployment>(tb.binding_info_);
    MC_CHECK(p.service_id_ == q.service_id_ && p.events_ == q.events_ && p.fields_ == q.fields_ && p.methods_ == q.methods_ && ta.ToHashString() == tb.ToHashString(), "the type changed on a round trip");
}
void round_trip_case()
{
    for (int half : {0, 1})
        mc::explore(half ? "round trips: elements" : "round trips: attributes", mc::Config{0}, [=] {
            std::uint8_t tracing = half ? static_cast<std::uint8_t>(mc::choose(2, "tracing") * 7) : std::uint8_t{0};
            auto w = world(half, tracing); auto id = w.id(); std::string s{id.ToString()};
            fresh(w);
            auto r = InstanceIdentifier::Create(std::string{s});
            MC_CHECK(r.has_value(), "a serialised identifier is not accepted"); if (!r.has_value()) return;
            auto& id2 = r.value();
            InstanceIdentifierView a{id}, b{id2};
            same_content(a.GetServiceInstanceDeployment(), b.GetServiceInstanceDeployment(), a.GetServiceTypeDeployment(), b.GetServiceTypeDeployment());
            MC_CHECK(std::string(id2.ToString()) == s, "the text changed on a round trip");
            MC_CHECK(std::hash<InstanceIdentifier>{}(id) == std::hash<InstanceIdentifier>{}(id2), "the hash value changed on a round trip");
            auto& l = std::get<LolaServiceInstanceDeployment>(w.inst->bindingInfo_);
            bool traced = tracing && (!l.events_.empty() || !l.fields_.empty());
            if (!traced) MC_CHECK(id == id2 && id2 == id && !(id < id2) && !(id2 < id), "a round trip does not give an equal identifier");
            MC_CHECK(b.GetServiceInstanceId().has_value() == l.instance_id_.has_value() && (!l.instance_id_ || *b.GetServiceInstanceId() == ServiceInstanceId{*l.instance_id_}), "the instance id of a created identifier");
            MC_CHECK(b.isCompatibleWith(id) && b.isCompatibleWith(a), "an identifier is not compatible with its round trip");
            // serialised again, and copies
            MC_CHECK(std::string(make_InstanceIdentifier(b.GetServiceInstanceDeployment(), b.GetServiceTypeDeployment()).ToString()) == s, "the second text differs from the first");
            auto c = id2; auto d = std::move(c); c = d; MC_CHECK(d == id2 && c == id2 && std::hash<InstanceIdentifier>{}(c) == std::hash<InstanceIdentifier>{}(id2) && !(c < d), "copies differ");
            // what it now finds in the configuration
            MC_CHECK(w.conf->GetServiceInstanceDeployment(w.inst->instance_specifier_).has_value() && w.conf->GetServiceTypeDeployment(w.inst->service_).has_value(), "the deployment is not in the configuration");
            MC_CHECK(w.conf->GetNumberOfServiceInstances() == 1 && w.conf->GetNumberOfServiceTypes() == 1, "more than one deployment was added");
        });
}
void malformed_case()
{
    mc::explore("malformed text", mc::Config{0}, [] {
        World w; auto t = LolaServiceTypeDeployment{65535, {{"e", 1}}, {{"f", 2}}, {{"m", 3}}};
        LolaServiceInstanceDeployment l{LolaServiceInstanceId{9}, {{"e", event(1)}}, {{"f", LolaFieldInstanceDeployment{event(1), true, false}}}, {{"m", LolaMethodInstanceDeployment{std::uint8_t{4}, true}}}, true, {{QualityType::kASIL_QM, {1, 2}}}, {{QualityType::kASIL_B, {3}}}, true, true};
        l.shared_memory_size_ = 11; l.control_asil_b_memory_size_ = 12; l.control_qm_memory_size_ = 13;
        w.type = std::make_unique<ServiceTypeDeployment>(t);
        w.inst = std::make_unique<ServiceInstanceDeployment>(make_ServiceIdentifierType("/t", 3, 4), l, QualityType::kASIL_B, InstanceSpecifier::Create(std::string{"a/b"}).value());
        const std::string s{w.id().ToString()};
        auto yields = [&](const std::string& x) {
            fresh(w); bool got = false, dead = mc::dies([&] { auto r = InstanceIdentifier::Create(std::string{x}); got = r.has_value(); if (!r.has_value() && r.error() != ComErrc::kInvalidInstanceIdentifierString) mc::violation("malformed text is refused for another reason"); });
            return got && !dead;
        };
        int kind = mc::choose(5, "damage");
        if (kind == 0)
        {   // truncated, or something behind it
            int part = mc::choose(16, "part"); auto n = s.size();
            for (auto i = n * static_cast<std::size_t>(part) / 16; i < n * static_cast<std::size_t>(part + 1) / 16; ++i) MC_CHECK(!yields(s.substr(0, i)), "text cut after " << i << " of " << n << " characters yields an identifier");
            MC_CHECK(yields(s), "the undamaged text is refused");
        }
        else if (kind == 1)
        {   // no object at all
            static const std::vector<std::string> bad{"", " ", "1", "\"x\"", "[]", "[" , "{", "}", "{}", "{}}", "null", "true", "{\"serializationVersion\":1}", "[{}]"};
            for (auto& b : bad) MC_CHECK(!yields(b), "'" << b << "' yields an identifier");
            InstanceIdentifierAttorney::Set(nullptr); auto r = InstanceIdentifier::Create(std::string{s}); MC_CHECK(!r.has_value() && r.error() == ComErrc::kInvalidConfiguration, "an identifier was created without a configuration");
        }
        else
        {
            // every key of the text in turn
            static const std::set<std::string> optional{"instanceId", "sharedMemorySize", "controlAsilBMemorySize", "controlQmMemorySize", "numberOfSampleSlots", "maxSamples", "maxSubscribers", "subscribers", "maxConcurrentAllocations", "numberOfIpcTracingSlots", "queueSize", "e", "f", "m", "kASIL_QM", "kASIL_B"};
            std::vector<std::pair<std::size_t, std::string>> keys;
            for (std::size_t p = 0; (p = s.find("\":", p)) != std::string::npos; ++p) { auto b = s.rfind('"', p - 1); keys.emplace_back(b + 1, s.substr(b + 1, p - b - 1)); }
            for (auto& k : keys)
            {
                std::size_t colon = k.first + k.second.size() + 1; while (s[colon] != ':') ++colon; std::size_t v = colon + 1; while (v < s.size() && (s[v] == ' ' || s[v] == '\n' || s[v] == '\t')) ++v;
                if (kind == 2)
                {   // a key is missing
                    bool nested_instance_id = k.second == "instanceId" && s.compare(v, 1, "{") != 0;   // the one inside the object of that name
                    std::string x = s; x.replace(k.first, k.second.size(), k.second == "e" || k.second == "f" || k.second == "m" ? "zz" : "x" + k.second);
                    bool opt = optional.count(k.second) && !nested_instance_id;
                    if (k.second == "kASIL_QM" || k.second == "kASIL_B") opt = false;
                    if (!opt) MC_CHECK(!yields(x), "text without " << k.second << " yields an identifier");
                }
                else if (kind == 3)
                {   // another version
                    if (k.second != "serializationVersion") continue;
                    for (const char* nv : {"2", "0", "4294967295", "\"1\"", "-1"}) { std::string x = s; x.replace(v, 1, nv); MC_CHECK(!yields(x), "text with serialization version " << nv << " yields an identifier"); }
                }
                else
                {   // another type of value
                    std::size_t e = v; char c = s[v];
                    if (c == '{' || c == '[') { int d = 0; do { if (s[e] == '{' || s[e] == '[') ++d; if (s[e] == '}' || s[e] == ']') --d; ++e; } while (d); }
                    else if (c == '"') { e = s.find('"', v + 1) + 1; } else while (s[e] != ',' && s[e] != '}' && s[e] != '\n') ++e;
                    for (const char* nv : {"{}", "[]", "\"x\"", "1", "true", "null"})
                    {
                        bool same_kind = (c == '{' && nv[0] == '{') || (c == '[' && nv[0] == '[') || (c == '"' && nv[0] == '"') || (isdigit(c) && nv[0] == '1') || ((c == 't' || c == 'f') && nv[0] == 't');
                        if (same_kind || k.second == "numberOfIpcTracingSlots") continue;
                        std::string x = s.substr(0, v) + nv + s.substr(e);
                        MC_CHECK(!yields(x), "text with " << nv << " for " << k.second << " yields an identifier");
                    }
                }
            }
            MC_CHECK(keys.size() > 30, "HARNESS: keys " << keys.size());
        }
    });
}
void relations_case()
{
    // All pairs of identifiers that differ in one attribute.
    mc::explore("comparison of instance identifiers", mc::Config{0}, [] {
        struct A { std::string name{"/t"}; std::uint32_t ma{1}, mi{0}; std::optional<std::uint16_t> id{5}; QualityType q{QualityType::kASIL_QM}; std::optional<std::size_t> shm; bool strict{false}; int ev{0}, us{0}; std::string sp{"s"}; };
        static const std::vector<A> as = [] {
            std::vector<A> r(1); auto add = [&](auto f) { A a; f(a); r.push_back(a); };
            add([](A& a) { a.name = "/u"; }); add([](A& a) { a.name = ""; }); add([](A& a) { a.ma = 0; }); add([](A& a) { a.mi = 4294967295u; }); add([](A& a) { a.id = 4; }); add([](A& a) { a.id = 65535; }); add([](A& a) { a.id.reset(); }); add([](A& a) { a.q = QualityType::kASIL_B; });
            add([](A& a) { a.shm = 1; }); add([](A& a) { a.shm = 2; }); add([](A& a) { a.strict = true; }); add([](A& a) { a.ev = 1; }); add([](A& a) { a.ev = 2; }); add([](A& a) { a.us = 1; }); add([](A& a) { a.us = 2; }); add([](A& a) { a.id = 4; a.q = QualityType::kASIL_B; }); add([](A& a) { a.id = 4; a.shm = 1; a.name = "/u"; });
            return r; }();
        auto make = [](const A& a) {
            World w; LolaServiceInstanceDeployment l; if (a.id) l.instance_id_ = LolaServiceInstanceId{*a.id}; l.shared_memory_size_ = a.shm; l.strict_permissions_ = a.strict;
            if (a.ev) l.events_.emplace("e", event(a.ev - 1)); if (a.us) l.allowed_consumer_ = {{QualityType::kASIL_QM, {static_cast<uid_t>(a.us)}}};
            w.type = std::make_unique<ServiceTypeDeployment>(LolaServiceTypeDeployment{3}); w.inst = std::make_unique<ServiceInstanceDeployment>(make_ServiceIdentifierType(a.name, a.ma, a.mi), l, a.q, InstanceSpecifier::Create(std::string{a.sp}).value()); return w; };
        int i = mc::choose(static_cast<int>(as.size()), "left"), j = mc::choose(static_cast<int>(as.size()), "right");
        const A &a = as[static_cast<std::size_t>(i)], &b = as[static_cast<std::size_t>(j)];
        World wa = make(a), wb = make(b); auto x = wa.id(), y = wb.id();
        MC_CHECK((x == y) == (i == j) && (y == x) == (i == j), "identifiers " << i << " and " << j << " compare equal: " << (x == y));
        MC_CHECK(!((x < y) && (y < x)), "identifiers " << i << " and " << j << " are both less"); if (i == j) MC_CHECK(!(x < y), "an identifier is less than an equal one");
        auto ka = std::tie(a.name, a.ma, a.mi), kb = std::tie(b.name, b.ma, b.mi);
        if (ka != kb) MC_CHECK((x < y) == (ka < kb), "services of identifiers " << i << " and " << j << " decide the order");
        else if (a.id != b.id) MC_CHECK((x < y) == (a.id < b.id), "instance ids of identifiers " << i << " and " << j << " decide the order");
        else if (i != j && a.q != b.q && a.shm == b.shm && a.strict == b.strict && a.ev == b.ev && a.us == b.us) MC_CHECK((x < y) == (a.q < b.q), "quality of identifiers " << i << " and " << j << " decides the order");
        if (i == j) MC_CHECK(std::hash<InstanceIdentifier>{}(x) == std::hash<InstanceIdentifier>{}(y) && x.ToString() == y.ToString(), "equal identifiers differ in text or hash"); else MC_CHECK(x.ToString() != y.ToString(), "different identifiers have the same text");
        bool compat = a.q == b.q && (!a.id || !b.id || *a.id == *b.id);
        MC_CHECK(InstanceIdentifierView{x}.isCompatibleWith(y) == compat && InstanceIdentifierView{y}.isCompatibleWith(InstanceIdentifierView{x}) == compat, "compatibility of identifiers " << i << " and " << j);
        // handles and enriched identifiers
        auto sid = [](int n) { return ServiceInstanceId{LolaServiceInstanceId{static_cast<std::uint16_t>(n)}}; };
        auto ids = [&](const A& q) { std::vector<std::optional<ServiceInstanceId>> r{{sid(4)}, {sid(6)}}; if (q.id) r.push_back(std::nullopt); return r; };
        auto val = [](const A& q, const std::optional<ServiceInstanceId>& s) { return s ? GetServiceInstanceIdBinding<LolaServiceInstanceId>(*s).GetId() : *q.id; };
        for (auto& p : ids(a)) for (auto& q : ids(b))
        {
            auto h = make_HandleType(x, p), k = make_HandleType(y, q); int vp = val(a, p), vq = val(b, q);
            MC_CHECK(h.GetInstanceId() == sid(vp), "instance id of a handle"); MC_CHECK(h.GetInstanceIdentifier() == x && &h.GetServiceInstanceDeployment() == wa.inst.get() && &h.GetServiceTypeDeployment() == wa.type.get(), "content of a handle");
            MC_CHECK((h == k) == (i == j && vp == vq), "handles of " << i << " and " << j << " compare equal: " << (h == k));
            if (i == j) MC_CHECK((h < k) == (vp < vq), "order of handles of one instance");
            MC_CHECK(!((h < k) && (k < h)), "handles are both less");
            if (h == k) MC_CHECK(std::hash<HandleType>{}(h) == std::hash<HandleType>{}(k), "equal handles have different hash values");
            if (vp != vq) MC_CHECK(std::hash<HandleType>{}(h) != std::hash<HandleType>{}(k), "handles of different instance ids share a hash value");
            EnrichedInstanceIdentifier e{h}, f{k}, g{EnrichedInstanceIdentifier{x}, QualityType::kASIL_B}, d{x};
            MC_CHECK((e == f) == (i == j && vp == vq) && e.GetBindingSpecificInstanceId<LolaServiceInstanceId>() == std::optional<std::uint16_t>(vp) && e.GetBindingSpecificServiceId<LolaServiceTypeDeployment>() == std::optional<std::uint16_t>(3) && e.GetQualityType() == a.q && e.GetInstanceIdentifier() == x, "an identifier enriched with instance " << vp);
            MC_CHECK(d.GetBindingSpecificInstanceId<LolaServiceInstanceId>() == a.id && d.GetInstanceId().has_value() == a.id.has_value() && g.GetQualityType() == QualityType::kASIL_B && (g == d) == (a.q == QualityType::kASIL_B), "an identifier enriched from the configuration");
        }
        if (!a.id) MC_CHECK(mc::dies([&] { make_HandleType(x); }), "a handle without any instance id");
        if (a.id) MC_CHECK(mc::dies([&] { EnrichedInstanceIdentifier e{x, sid(1)}; }), "a configured instance id was overridden"); else MC_CHECK((EnrichedInstanceIdentifier{x, sid(1)}.GetInstanceId() == std::optional<ServiceInstanceId>(sid(1))), "an instance id given later");
    });
    mc::explore("identifiers of two specifiers with one deployment", mc::Config{0}, [] {
        ServiceTypeDeployment t{LolaServiceTypeDeployment{3}}; LolaServiceInstanceDeployment l{LolaServiceInstanceId{5}};
        ServiceInstanceDeployment a{make_ServiceIdentifierType("/t", 1, 0), l, QualityType::kASIL_QM, InstanceSpecifier::Create(std::string{"one"}).value()}, b{make_ServiceIdentifierType("/t", 1, 0), l, QualityType::kASIL_QM, InstanceSpecifier::Create(std::string{"two"}).value()};
        auto x = make_InstanceIdentifier(a, t), y = make_InstanceIdentifier(b, t);
        if (x == y) MC_CHECK(std::hash<InstanceIdentifier>{}(x) == std::hash<InstanceIdentifier>{}(y), "identifiers that compare equal have different hash values");
    });
}
}  // namespace
MC_CASE(C02, specifiers) { specifiers_case(); }
MC_CASE(C02, components) { small_case(); }
MC_CASE(C02, identifiers) { round_trip_case(); malformed_case(); relations_case(); }
