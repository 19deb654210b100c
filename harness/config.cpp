// C01: configuration documents are represented faithfully, and documents that break a rule are refused.
#include "mc.h"
#include "score/json/json_parser.h"
#include "score/mw/com/impl/configuration/config_parser.h"
#include "score/mw/com/impl/configuration/configuration.h"
#include "score/mw/com/impl/configuration/configuration_error.h"
#include <atomic>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace score::mw::com::impl;
namespace tracing = score::mw::com::impl::tracing;
namespace
{
using Opt = std::optional<std::string>;
// One key of an object: present with one of the texts, or absent.
struct Obj
{
    std::string s;
    Obj& kv(const char* k, const std::string& v) { s += (s.empty() ? "" : ",") + std::string("\"") + k + "\":" + v; return *this; }
    Obj& kv(const char* k, const char* v) { return kv(k, std::string(v)); }
    Obj& kv(const char* k, const Opt& v) { if (v) kv(k, *v); return *this; }
    std::string str() const { return "{" + s + "}"; }
};
std::string q(const std::string& s) { return "\"" + s + "\""; }
std::string list(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : ",") + x; return "[" + r + "]"; }
Opt pick(const char* what, const std::vector<std::string>& texts) { int c = mc::choose(static_cast<int>(texts.size()) + 1, what); return c == 0 ? Opt{} : Opt{texts[c - 1]}; }
Opt flag(const char* what) { return pick(what, {"false", "true"}); }
bool on(const Opt& o, bool dflt) { return o ? *o == "true" : dflt; }
std::optional<std::uint64_t> num(const Opt& o) { return o ? std::optional<std::uint64_t>(std::stoull(*o)) : std::nullopt; }
template <class T> std::string show(const std::optional<T>& v) { return v ? std::to_string(+*v) : "none"; }
template <class T> void same(const std::optional<T>& got, const std::optional<std::uint64_t>& want, const char* what)
{
    MC_CHECK(got.has_value() == want.has_value() && (!got || static_cast<std::uint64_t>(*got) == *want), what << " is " << show(got) << ", configured " << show(want));
}
const char* kVersion = "{\"major\":1,\"minor\":0}";
std::string type_doc(const std::string& name, const std::string& version, const std::string& binding_rest)
{
    return "{\"serviceTypeName\":" + q(name) + ",\"version\":" + version + ",\"bindings\":[{\"binding\":\"SHM\"" + binding_rest + "}]}";
}
std::string inst_doc(const std::string& spec, const std::string& type, const std::string& version, const std::string& deployment)
{
    return "{\"instanceSpecifier\":" + q(spec) + ",\"serviceTypeName\":" + q(type) + ",\"version\":" + version + ",\"instances\":[" + deployment + "]}";
}
std::string doc(const std::vector<std::string>& types, const std::vector<std::string>& insts, const std::string& more = "")
{
    return "{\"serviceTypes\":" + list(types) + ",\"serviceInstances\":" + list(insts) + more + "}";
}
Configuration parse(const std::string& text)
{
    auto any = score::json::JsonParser{}.FromBuffer(text);
    if (!any.has_value()) { mc::violation("HARNESS: not JSON: " + text); std::terminate(); }
    return configuration::Parse(std::move(any).value());
}
void refused(const std::string& text, const std::string& what)
{
    auto any = score::json::JsonParser{}.FromBuffer(text);
    if (!any.has_value()) { mc::violation("HARNESS: not JSON: " + text); return; }
    bool d = mc::dies([&] { auto c = configuration::Parse(std::move(any).value()); });
    MC_CHECK(d, "a document was accepted although " << what);
}
InstanceSpecifier spec(const std::string& s) { return InstanceSpecifier::Create(std::string{s}).value(); }
const LolaServiceInstanceDeployment& lola_inst(const Configuration& c, const std::string& s)
{
    auto r = c.GetServiceInstanceDeployment(spec(s));
    if (!r) { mc::violation("instance " + s + " is missing"); std::terminate(); }
    return std::get<LolaServiceInstanceDeployment>(r->get().bindingInfo_);
}
const LolaServiceTypeDeployment& lola_type(const Configuration& c, const std::string& n, std::uint32_t ma = 1, std::uint32_t mi = 0)
{
    auto r = c.GetServiceTypeDeployment(make_ServiceIdentifierType(n, ma, mi));
    if (!r) { mc::violation("type " + n + " is missing"); std::terminate(); }
    return std::get<LolaServiceTypeDeployment>(r->get().binding_info_);
}

// ---- an event or field entry of an instance ----
struct Entry { std::string name; bool field{false}; Opt slots, max_samples, subs, enforce, trace, get, set; };
Entry pick_entry(const std::string& name, bool field, bool full)
{
    Entry e; e.name = name; e.field = field;
    std::vector<std::string> n = full ? std::vector<std::string>{"0", "1", "255", "256", "65535"} : std::vector<std::string>{"7"};
    std::vector<std::string> b = full ? std::vector<std::string>{"0", "1", "255"} : std::vector<std::string>{"3"};
    int c = mc::choose(static_cast<int>(field ? n.size() + 1 : 2 * n.size() + 1), "slots");
    if (c > static_cast<int>(n.size())) e.max_samples = n[c - 1 - n.size()]; else if (c) e.slots = n[c - 1];
    e.subs = pick("maxSubscribers", b);
    e.enforce = full ? flag("enforce") : pick("enforce", {"false"});
    e.trace = pick("tracing slots", b);
    if (field) { e.get = full ? flag("get") : pick("get", {"false"}); e.set = full ? flag("set") : pick("set", {"false"}); }
    return e;
}
std::string text(const Entry& e)
{
    Obj o; o.kv(e.field ? "fieldName" : "eventName", q(e.name)).kv("numberOfSampleSlots", e.slots).kv("maxSamples", e.max_samples).kv("maxSubscribers", e.subs).kv("enforceMaxSamples", e.enforce).kv("numberOfIpcTracingSlots", e.trace);
    o.kv("useGetIfAvailable", e.get).kv("useSetIfAvailable", e.set);
    return o.str();
}
void check(const LolaEventInstanceDeployment& d, const Entry& e)
{
    auto slots = num(e.slots ? e.slots : e.max_samples);
    auto tr = num(e.trace).value_or(0);
    same(d.GetNumberOfSampleSlotsExcludingTracingSlot(), slots, "number of sample slots");
    MC_CHECK(d.GetNumberOfTracingSlots() == tr, "number of tracing slots is " << +d.GetNumberOfTracingSlots() << ", configured " << tr);
    if (slots && *slots + tr > 65535) MC_CHECK(mc::dies([&] { d.GetNumberOfSampleSlots(); }), "more than 65535 slots accepted");
    else same(d.GetNumberOfSampleSlots(), slots ? std::optional<std::uint64_t>(*slots + tr) : std::nullopt, "slots including tracing");
    same(d.max_subscribers_, num(e.subs), "subscriber limit");
    MC_CHECK(d.max_concurrent_allocations_ == std::optional<std::uint8_t>(1), "concurrent allocations are not 1");
    MC_CHECK(d.enforce_max_samples_ == on(e.enforce, true), "sample limit enforcement is " << d.enforce_max_samples_);
}
void check_elements(const LolaServiceInstanceDeployment& d, const std::vector<Entry>& es)
{
    std::size_t ne = 0, nf = 0;
    for (auto& e : es)
        if (e.field)
        {
            ++nf; auto it = d.fields_.find(e.name);
            MC_CHECK(it != d.fields_.end() && d.ContainsField(e.name), "field " << e.name << " is missing"); if (it == d.fields_.end()) continue;
            check(it->second.lola_event_instance_deployment_, e);
            MC_CHECK(it->second.use_get_if_available_ == on(e.get, true), "use of the getter is " << it->second.use_get_if_available_);
            MC_CHECK(it->second.use_set_if_available_ == on(e.set, true), "use of the setter is " << it->second.use_set_if_available_);
            check(GetServiceElementInstanceDeployment<ServiceElementType::FIELD>(d, e.name).lola_event_instance_deployment_, e);
        }
        else
        {
            ++ne; auto it = d.events_.find(e.name);
            MC_CHECK(it != d.events_.end() && d.ContainsEvent(e.name), "event " << e.name << " is missing"); if (it == d.events_.end()) continue;
            check(it->second, e);
            check(GetServiceElementInstanceDeployment<ServiceElementType::EVENT>(d, e.name), e);
        }
    MC_CHECK(d.events_.size() == ne && d.fields_.size() == nf, d.events_.size() << " events and " << d.fields_.size() << " fields instead of " << ne << " and " << nf);
    for (const char* n : {"e1", "e2", "f1", "f2", "nope"})
    {
        bool ev = false, fi = false; for (auto& e : es) if (e.name == n) (e.field ? fi : ev) = true;
        MC_CHECK(d.ContainsEvent(n) == ev && d.ContainsField(n) == fi && !d.ContainsMethod(n), "membership of " << n << " is wrong");
    }
}
void elements_case(const char* name, bool full, int shape)
{
    mc::Config c{0};
    mc::explore(name, c, [=] {
        std::vector<Entry> es;
        if (full) es.push_back(pick_entry(shape ? "f1" : "e1", shape, true));
        else { es.push_back(pick_entry("e1", false, false)); es.push_back(pick_entry(shape ? "f1" : "e2", shape, false)); if (shape) es.push_back(pick_entry("f2", true, false)); }
        std::vector<std::string> ev, fi; for (auto& e : es) (e.field ? fi : ev).push_back(text(e));
        Obj o; o.kv("asil-level", q("QM")).kv("binding", q("SHM")).kv("events", list(ev)).kv("fields", list(fi));
        auto cfg = parse(doc({type_doc("/t", kVersion, ",\"serviceId\":1")}, {inst_doc("i", "/t", kVersion, o.str())}));
        check_elements(lola_inst(cfg, "i"), es);
    });
}
void methods_case()
{
    mc::explore("methods", mc::Config{0}, [] {
        int n = mc::choose(4, "number of methods") - 1;   // -1: no array at all
        std::vector<std::pair<Opt, Opt>> ms; std::vector<std::string> t;
        for (int i = 0; i < n; ++i)
        {
            ms.emplace_back(pick("queueSize", {"0", "1", "255"}), flag("use"));
            Obj o; o.kv("methodName", q("m" + std::to_string(i))).kv("queueSize", ms.back().first).kv("use", ms.back().second); t.push_back(o.str());
        }
        Obj o; o.kv("instanceId", "5").kv("asil-level", q("QM")).kv("binding", q("SHM")); if (n >= 0) o.kv("methods", list(t));
        if (mc::choose(2, "order")) o = [&] { Obj p; if (n >= 0) p.kv("methods", list(t)); p.kv("binding", q("SHM")).kv("asil-level", q("QM")).kv("instanceId", "5"); return p; }();
        auto cfg = parse(doc({type_doc("/t", kVersion, ",\"serviceId\":1")}, {inst_doc("i", "/t", kVersion, o.str())}));
        auto& d = lola_inst(cfg, "i");
        MC_CHECK(d.methods_.size() == ms.size() && d.events_.empty() && d.fields_.empty(), "wrong number of methods " << d.methods_.size());
        for (int i = 0; i < n; ++i)
        {
            auto it = d.methods_.find("m" + std::to_string(i)); MC_CHECK(it != d.methods_.end(), "method missing"); if (it == d.methods_.end()) continue;
            same(it->second.queue_size_, num(ms[i].first), "queue size"); MC_CHECK(it->second.enabled_ == on(ms[i].second, true), "method use is " << it->second.enabled_);
        }
    });
}
// ---- instance level entries ----
struct Users { Opt text; std::map<QualityType, std::vector<uid_t>> m; };
Users pick_users(const char* what)
{
    const std::vector<std::pair<std::string, std::map<QualityType, std::vector<uid_t>>>> t{
        {"{}", {}}, {"{\"QM\":[]}", {{QualityType::kASIL_QM, {}}}}, {"{\"QM\":[3,4294967294]}", {{QualityType::kASIL_QM, {3, 4294967294u}}}}, {"{\"B\":[5]}", {{QualityType::kASIL_B, {5}}}},
        {"{\"QM\":[6],\"B\":[7,8]}", {{QualityType::kASIL_QM, {6}}, {QualityType::kASIL_B, {7, 8}}}}, {"{\"B\":[],\"QM\":[0]}", {{QualityType::kASIL_QM, {0}}, {QualityType::kASIL_B, {}}}}};
    int c = mc::choose(static_cast<int>(t.size()) + 1, what);
    Users u; if (c) { u.text = t[c - 1].first; u.m = t[c - 1].second; } return u;
}
void same_users(const std::unordered_map<QualityType, std::vector<uid_t>>& got, const Users& u, const char* what)
{
    MC_CHECK((std::map<QualityType, std::vector<uid_t>>(got.begin(), got.end()) == u.m), what << " differ from " << u.text.value_or("nothing"));
}
void instance_case()
{
    mc::explore("instance entries", mc::Config{0}, [] {
        bool b = mc::choose(2, "B"), detailed = mc::choose(2, "which half");
        Opt id, shm, cb, cq, vs, vf, perm; Users co, pr;
        if (detailed) { id = pick("instanceId", {"0", "1", "65535"}); shm = pick("shm-size", {"0", "1", "18446744073709551615"}); cb = pick("control b", {"0", "4294967296"}); cq = pick("control qm", {"0", "77"}); vs = flag("interVmSupport"); vf = flag("interVmForwarded"); }
        else { perm = pick("permission", {q("strict"), q("file-permissions-on-empty")}); co = pick_users("consumers"); pr = pick_users("providers"); }
        Obj o; o.kv("binding", q("SHM")).kv("asil-level", q(b ? "B" : "QM")).kv("instanceId", id).kv("shm-size", shm).kv("control-asil-b-shm-size", cb).kv("control-qm-shm-size", cq)
            .kv("interVmSupport", vs).kv("interVmForwarded", vf).kv("permission-checks", perm).kv("allowedConsumer", co.text).kv("allowedProvider", pr.text);
        auto text = doc({type_doc("/t", kVersion, ",\"serviceId\":1")}, {inst_doc("i", "/t", kVersion, o.str())});
        if (on(vf, false) && !on(vs, false)) { refused(text, "an instance is forwarded between VMs without inter-VM support"); return; }
        auto cfg = parse(text);
        auto& d = lola_inst(cfg, "i");
        MC_CHECK(d.instance_id_.has_value() == id.has_value() && (!id || d.instance_id_->GetId() == *num(id)), "instance id differs");
        same(d.shared_memory_size_, num(shm), "memory size"); same(d.control_asil_b_memory_size_, num(cb), "ASIL-B control size"); same(d.control_qm_memory_size_, num(cq), "QM control size");
        MC_CHECK(d.inter_vm_support_ == on(vs, false) && d.inter_vm_forwarded_ == on(vf, false), "inter-VM flags differ");
        MC_CHECK(d.strict_permissions_ == (perm == Opt(q("strict"))), "strictness of permissions is " << d.strict_permissions_);
        same_users(d.allowed_consumer_, co, "allowed consumers"); same_users(d.allowed_provider_, pr, "allowed providers");
        auto& si = cfg.GetServiceInstanceDeployment(spec("i"))->get();
        MC_CHECK(si.asilLevel_ == (b ? QualityType::kASIL_B : QualityType::kASIL_QM), "quality of the instance differs");
        MC_CHECK(si.service_ == make_ServiceIdentifierType("/t", 1, 0) && si.instance_specifier_ == spec("i") && si.GetBindingType() == BindingType::kLoLa, "instance refers to something else");
        MC_CHECK(d.events_.empty() && d.fields_.empty() && d.methods_.empty(), "elements from nowhere");
    });
}
void global_case()
{
    mc::explore("global entries", mc::Config{0}, [] {
        auto asil = pick("asil", {q("QM"), q("B"), q("A")}); auto app = pick("application", {"0", "4294967295"}); auto mode = pick("mode", {q("SIMULATION"), q("ANALYSIS"), q("simulation")});
        auto qq = pick("QM-receiver", {"0", "1", "2147483647"}), qb = pick("B-receiver", {"2", "255"}), qs = pick("B-sender", {"3", "256"});
        int how = mc::choose(3, "section");   // none, without queue sizes, with queue sizes
        std::string more;
        if (how < 2) { qq = qb = qs = Opt{}; }
        if (how == 0) { asil = app = mode = Opt{}; }
        else
        {
            Obj o; o.kv("asil-level", asil).kv("applicationID", app).kv("shm-size-calc-mode", mode);
            if (how == 2) { Obj z; z.kv("B-sender", qs).kv("QM-receiver", qq).kv("B-receiver", qb); o.kv("queue-size", z.str()); }
            more = ",\"global\":" + o.str();
        }
        auto text = doc({}, {}, more);
        if (asil == Opt(q("A"))) { refused(text, "the process has an unknown quality level"); return; }
        if (mode == Opt(q("simulation"))) { refused(text, "the memory size calculation mode is unknown"); return; }
        auto cfg = parse(text); auto& g = cfg.GetGlobalConfiguration();
        MC_CHECK(g.GetProcessAsilLevel() == (asil == Opt(q("B")) ? QualityType::kASIL_B : QualityType::kASIL_QM), "quality of the process differs");
        same(g.GetApplicationId(), num(app), "application id");
        MC_CHECK(g.GetShmSizeCalcMode() == (mode == Opt(q("ANALYSIS")) ? ShmSizeCalculationMode::kAnalysis : ShmSizeCalculationMode::kSimulation), "memory size calculation mode differs");
        MC_CHECK(g.GetReceiverMessageQueueSize(QualityType::kASIL_QM) == static_cast<std::int32_t>(num(qq).value_or(10)), "QM receiver queue " << g.GetReceiverMessageQueueSize(QualityType::kASIL_QM));
        MC_CHECK(g.GetReceiverMessageQueueSize(QualityType::kASIL_B) == static_cast<std::int32_t>(num(qb).value_or(10)), "B receiver queue " << g.GetReceiverMessageQueueSize(QualityType::kASIL_B));
        MC_CHECK(g.GetSenderMessageQueueSize() == static_cast<std::int32_t>(num(qs).value_or(20)), "B sender queue " << g.GetSenderMessageQueueSize());
        MC_CHECK(cfg.IsServiceTypesEmpty() && cfg.IsServiceInstancesEmpty(), "services from nowhere");
        MC_CHECK(!cfg.GetTracingConfiguration().IsTracingEnabled(), "tracing enabled without being configured");
    });
}
void tracing_case()
{
    mc::explore("tracing", mc::Config{0}, [] {
        bool section = mc::choose(2, "section");
        Opt en, path, app;
        if (section) { en = flag("enable"); path = pick("path", {q("/x/y.json"), q("")}); app = pick("application", {q("app7"), q("")}); }
        std::string more; if (section) { Obj o; o.kv("traceFilterConfigPath", path).kv("enable", en).kv("applicationInstanceID", app); more = ",\"tracing\":" + o.str(); }
        // two instances of one type, one of another, with an event and a field of the same name
        struct El { const char *inst, *type, *name; bool field; Opt slots; };
        std::vector<El> els{{"i/a", "/t", "n", false, {}}, {"i/a", "/t", "n", true, {}}, {"i/b", "/t", "n", false, {}}, {"i/c", "/u", "n", true, {}}, {"i/c", "/u", "m", false, {}}};
        for (auto& e : els) e.slots = mc::thorough() ? pick("slots", {"0", "1", "255"}) : pick("slots", {"0", "2"});
        std::vector<std::string> insts;
        for (const char* in : {"i/a", "i/b", "i/c"})
        {
            std::vector<std::string> ev, fi; std::string ty;
            for (auto& e : els) if (std::string(e.inst) == in) { ty = e.type; Obj o; o.kv(e.field ? "fieldName" : "eventName", q(e.name)).kv("numberOfIpcTracingSlots", e.slots); (e.field ? fi : ev).push_back(o.str()); }
            Obj o; o.kv("asil-level", q("QM")).kv("binding", q("SHM")).kv("events", list(ev)).kv("fields", list(fi));
            insts.push_back(inst_doc(in, ty, kVersion, o.str()));
        }
        auto text = doc({}, insts, more);
        if (section && !app) { refused(text, "tracing is configured without an application instance id"); return; }
        auto cfg0 = parse(text);
        auto cfg = mc::choose(2, "move") ? Configuration(std::move(cfg0)) : std::move(cfg0);
        auto& t = cfg.GetTracingConfiguration();
        bool enabled = on(en, false);
        MC_CHECK(t.IsTracingEnabled() == enabled, "tracing is " << t.IsTracingEnabled());
        if (section)
        {
            auto unq = [](const std::string& s) { return s.substr(1, s.size() - 2); };
            MC_CHECK(std::string(t.GetTracingFilterConfigPath()) == (path ? unq(*path) : "./etc/mw_com_trace_filter.json"), "filter path is " << std::string(t.GetTracingFilterConfigPath()));
            MC_CHECK(std::string(t.GetApplicationInstanceID()) == unq(*app), "application instance id is " << std::string(t.GetApplicationInstanceID()));
        }
        for (const char* ty : {"/t", "/u"}) for (const char* n : {"n", "m"}) for (bool f : {false, true}) for (const char* in : {"i/a", "i/b", "i/c"})
        {
            bool want = false; for (auto& e : els) if (enabled && num(e.slots).value_or(0) > 0 && std::string(e.inst) == in && std::string(e.type) == ty && std::string(e.name) == n && e.field == f) want = true;
            bool got = t.IsServiceElementTracingEnabled(tracing::ServiceElementIdentifierView{ty, n, f ? ServiceElementType::FIELD : ServiceElementType::EVENT}, in);
            MC_CHECK(got == want, "tracing of " << ty << " " << n << (f ? " (field)" : " (event)") << " of " << in << " is " << got);
        }
    });
}
// ---- types ----
void types_case()
{
    mc::explore("types", mc::Config{0}, [] {
        struct T { std::string name; int ma, mi; std::string sid; std::vector<std::pair<std::string, std::string>> ev, fi, me; };
        static const char* names[] = {"/t", "/u"};
        std::vector<T> ts; int n = mc::choose(3, "number of types");
        std::vector<std::string> docs;
        for (int i = 0; i < n; ++i)
        {
            T t; t.name = names[mc::choose(i + 1, "name")]; t.ma = mc::choose(2, "major"); t.mi = mc::choose(2, "minor"); t.sid = i ? "3" : std::vector<std::string>{"0", "1", "65535"}[mc::choose(3, "service id")];
            std::vector<std::string> ids{"0", "1", "65535"};
            int shape = mc::choose(i ? 2 : 5, "elements");
            if (shape == 1) t.ev = {{"x", ids[mc::choose(3, "id")]}};
            if (shape == 2) { t.ev = {{"x", "0"}, {"y", "65535"}}; t.fi = {{"x", ids[1]}}; }
            if (shape == 3) { t.ev = {{"x", ids[mc::choose(3, "id")]}}; t.fi = {{"f", ids[mc::choose(3, "id")]}}; t.me = {{"m", ids[mc::choose(3, "id")]}}; }
            if (shape == 4) { t.fi = {{"f", ids[mc::choose(3, "id")]}, {"g", ids[mc::choose(3, "id")]}}; t.me = {{"m", ids[mc::choose(3, "id")]}, {"k", ids[mc::choose(3, "id")]}}; }
            auto el = [](const char* kind, const std::vector<std::pair<std::string, std::string>>& v) { std::vector<std::string> r; for (auto& p : v) { Obj o; o.kv((std::string(kind) + "Name").c_str(), q(p.first)).kv((std::string(kind) + "Id").c_str(), p.second); r.push_back(o.str()); } return list(r); };
            Obj o; o.kv("serviceId", t.sid);
            if (shape || mc::choose(2, "arrays")) o.kv("fields", el("field", t.fi)).kv("methods", el("method", t.me)).kv("events", el("event", t.ev));
            docs.push_back(type_doc(t.name, "{\"major\":" + std::to_string(t.ma) + ",\"minor\":" + std::to_string(t.mi) + "}", "," + o.s));
            ts.push_back(t);
        }
        auto text = doc(docs, {});
        bool dup_id = false;
        for (auto& t : ts) { std::set<std::string> s; for (auto* v : {&t.ev, &t.fi, &t.me}) for (auto& p : *v) if (!s.insert(p.second).second) dup_id = true; }
        if (dup_id) { refused(text, "two elements of a service have the same id"); return; }
        if (n == 2 && ts[0].name == ts[1].name && ts[0].ma == ts[1].ma && ts[0].mi == ts[1].mi) { refused(text, "a service type is configured twice"); return; }
        auto cfg = parse(text);
        MC_CHECK(cfg.GetNumberOfServiceTypes() == ts.size() && cfg.GetNumberOfServiceInstances() == 0, "wrong number of types");
        std::set<std::string> nm;
        for (auto& t : ts)
        {
            nm.insert(t.name);
            auto& d = lola_type(cfg, t.name, static_cast<std::uint32_t>(t.ma), static_cast<std::uint32_t>(t.mi));
            MC_CHECK(std::to_string(d.service_id_) == t.sid, "service id " << d.service_id_);
            auto cmp = [](const auto& m, const auto& v, const char* what) { std::map<std::string, std::string> a; for (auto& p : m) a[p.first] = std::to_string(p.second); MC_CHECK((a == std::map<std::string, std::string>(v.begin(), v.end())), "the " << what << " of a type differ"); };
            cmp(d.events_, t.ev, "events"); cmp(d.fields_, t.fi, "fields"); cmp(d.methods_, t.me, "methods");
        }
        auto got = cfg.GetServiceTypeNames(); MC_CHECK((std::set<std::string>(got.begin(), got.end()) == nm), "type names differ");
        for (const char* name : names)
        {
            std::set<std::string> e, f;
            for (auto& t : ts) if (t.name == name) { for (auto& p : t.ev) e.insert(p.first); for (auto& p : t.fi) f.insert(p.first); }
            auto ge = cfg.GetElementNamesOfServiceType(name, ServiceElementType::EVENT), gf = cfg.GetElementNamesOfServiceType(name, ServiceElementType::FIELD);
            MC_CHECK((std::set<std::string>(ge.begin(), ge.end()) == e && std::set<std::string>(gf.begin(), gf.end()) == f), "element names of " << name << " differ");
            for (int ma = 0; ma < 2; ++ma) for (int mi = 0; mi < 2; ++mi)
            {
                bool want = false; for (auto& t : ts) want |= t.name == name && t.ma == ma && t.mi == mi;
                MC_CHECK(cfg.GetServiceTypeDeployment(make_ServiceIdentifierType(name, static_cast<std::uint32_t>(ma), static_cast<std::uint32_t>(mi))).has_value() == want, "type " << name << " " << ma << "." << mi);
            }
        }
    });
}
// ---- single rule violations of a complete document ----
const char* kBase = R"({"serviceTypes":[{"serviceTypeName":"/t","version":{"major":1,"minor":0},"bindings":[{"binding":"SHM","serviceId":10,
 "events":[{"eventName":"e1","eventId":1},{"eventName":"e2","eventId":2}],"fields":[{"fieldName":"f1","fieldId":3},{"fieldName":"f2","fieldId":4}],"methods":[{"methodName":"m1","methodId":5},{"methodName":"m2","methodId":6}]}]}],
 "serviceInstances":[{"instanceSpecifier":"a/b","serviceTypeName":"/t","version":{"major":1,"minor":0},"instances":[{"instanceId":20,"asil-level":"B","binding":"SHM","shm-size":100,"control-asil-b-shm-size":101,"control-qm-shm-size":102,"permission-checks":"strict",
 "events":[{"eventName":"e1","numberOfSampleSlots":5,"maxSubscribers":3,"enforceMaxSamples":true,"numberOfIpcTracingSlots":1},{"eventName":"e2"}],
 "fields":[{"fieldName":"f1","numberOfSampleSlots":6,"maxSubscribers":4,"enforceMaxSamples":false,"numberOfIpcTracingSlots":2,"useGetIfAvailable":true,"useSetIfAvailable":true},{"fieldName":"f2"}],
 "methods":[{"methodName":"m1","queueSize":7,"use":true},{"methodName":"m2"}],"allowedConsumer":{"QM":[1],"B":[2]},"allowedProvider":{"QM":[3],"B":[4]}}]},
 {"instanceSpecifier":"a/c","serviceTypeName":"/t","version":{"major":1,"minor":0},"instances":[{"instanceId":21,"asil-level":"QM","binding":"SHM"}]}],
 "global":{"asil-level":"B","applicationID":33,"queue-size":{"QM-receiver":8,"B-receiver":9,"B-sender":11},"shm-size-calc-mode":"SIMULATION"},
 "tracing":{"enable":true,"applicationInstanceID":"x","traceFilterConfigPath":"./p"}})";
struct Viol { const char *from, *to; int nth; const char* what; };
void violations_case()
{
    static const std::vector<Viol> vs{
        {"\"serviceTypes\"", "\"other\"", 1, "there are no service types"}, {"\"serviceInstances\"", "\"other\"", 1, "there are no service instances"},
        {"\"serviceTypeName\":\"/t\",", "", 1, "a type has no name"}, {"\"serviceTypeName\":\"/t\",", "", 2, "an instance names no type"}, {"\"serviceTypeName\":\"/t\"", "\"serviceTypeName\":1", 1, "a type name is a number"},
        {"\"serviceTypeName\":\"/t\",", "", 3, "a second instance names no type"},
        {"\"version\":{\"major\":1,\"minor\":0},", "", 1, "a type has no version"}, {"\"version\":{\"major\":1,\"minor\":0},", "", 2, "an instance has no version"},
        {"{\"major\":1,\"minor\":0}", "{\"minor\":0}", 1, "a version has no major number"}, {"{\"major\":1,\"minor\":0}", "{\"major\":1}", 1, "a version has no minor number"}, {"{\"major\":1,\"minor\":0}", "{\"major\":1}", 2, "a version has no minor number"},
        {"\"major\":1", "\"major\":4294967296", 1, "a major number is too large"}, {"\"major\":1", "\"major\":\"1\"", 1, "a major number is text"}, {"\"minor\":0", "\"minor\":-1", 2, "a minor number is negative"},
        {"{\"major\":1,\"minor\":0}", "\"1.0\"", 1, "a version is text"},
        {"\"bindings\"", "\"xbindings\"", 1, "a type has no bindings"}, {"\"binding\":\"SHM\",\"serviceId\"", "\"serviceId\"", 1, "a type binding has no kind"}, {"\"binding\":\"SHM\",\"serviceId\"", "\"binding\":\"SOME/IP\",\"serviceId\"", 1, "a type binding is unknown"},
        {"\"binding\":\"SHM\",\"serviceId\"", "\"binding\":1,\"serviceId\"", 1, "a type binding is a number"},
        {"\"serviceId\":10,", "", 1, "a type has no service id"}, {"\"serviceId\":10", "\"serviceId\":65536", 1, "a service id is too large"}, {"\"serviceId\":10", "\"serviceId\":-1", 1, "a service id is negative"}, {"\"serviceId\":10", "\"serviceId\":\"10\"", 1, "a service id is text"},
        {"\"eventName\":\"e1\",", "", 1, "an event has no name"}, {",\"eventId\":1", "", 1, "an event has no id"}, {"\"eventId\":1", "\"eventId\":65536", 1, "an event id is too large"}, {"\"eventId\":2", "\"eventId\":1", 1, "two events have one id"}, {"\"eventName\":\"e2\"", "\"eventName\":\"e1\"", 1, "two events have one name"},
        {"\"fieldName\":\"f1\",", "", 1, "a field has no name"}, {",\"fieldId\":3", "", 1, "a field has no id"}, {"\"fieldId\":3", "\"fieldId\":65536", 1, "a field id is too large"}, {"\"fieldId\":4", "\"fieldId\":3", 1, "two fields have one id"}, {"\"fieldId\":4", "\"fieldId\":1", 1, "an event and a field have one id"}, {"\"fieldName\":\"f2\"", "\"fieldName\":\"f1\"", 1, "two fields have one name"},
        {"\"methodName\":\"m1\",", "", 1, "a method has no name"}, {",\"methodId\":5", "", 1, "a method has no id"}, {"\"methodId\":5", "\"methodId\":65536", 1, "a method id is too large"}, {"\"methodId\":6", "\"methodId\":5", 1, "two methods have one id"}, {"\"methodId\":6", "\"methodId\":2", 1, "an event and a method have one id"}, {"\"methodId\":6", "\"methodId\":4", 1, "a field and a method have one id"}, {"\"methodName\":\"m2\"", "\"methodName\":\"m1\"", 1, "two methods have one name"},
        {"\"instanceSpecifier\":\"a/b\",", "", 1, "an instance has no specifier"}, {"\"instanceSpecifier\":\"a/b\"", "\"instanceSpecifier\":\"a//b\"", 1, "an instance specifier is malformed"}, {"\"instanceSpecifier\":\"a/b\"", "\"instanceSpecifier\":7", 1, "an instance specifier is a number"}, {"\"a/c\"", "\"a/b\"", 1, "an instance specifier is used twice"},
        {"\"instances\":[{\"instanceId\":21,\"asil-level\":\"QM\",\"binding\":\"SHM\"}]", "\"instances\":[]", 1, "an instance has no deployment"}, {"\"instances\":[{\"instanceId\":21,", "\"xinstances\":[{\"instanceId\":21,", 1, "an instance has no deployments"},
        {"\"instances\":[{\"instanceId\":21,\"asil-level\":\"QM\",\"binding\":\"SHM\"}]", "\"instances\":[{\"instanceId\":21,\"asil-level\":\"QM\",\"binding\":\"SHM\"},{\"instanceId\":22,\"asil-level\":\"QM\",\"binding\":\"SHM\"}]", 1, "an instance has two deployments"},
        {"\"instanceId\":20", "\"instanceId\":65536", 1, "an instance id is too large"}, {"\"instanceId\":20", "\"instanceId\":-1", 1, "an instance id is negative"}, {"\"instanceId\":20", "\"instanceId\":\"20\"", 1, "an instance id is text"},
        {"\"asil-level\":\"B\",\"binding\"", "\"binding\"", 1, "an instance has no quality level"}, {"\"asil-level\":\"B\",\"binding\"", "\"asil-level\":\"D\",\"binding\"", 1, "an instance has an unknown quality level"}, {"\"asil-level\":\"B\",\"binding\"", "\"asil-level\":2,\"binding\"", 1, "a quality level is a number"},
        {"\"asil-level\":\"B\",\"binding\":\"SHM\",", "\"asil-level\":\"B\",", 1, "an instance has no binding"}, {"\"asil-level\":\"B\",\"binding\":\"SHM\"", "\"asil-level\":\"B\",\"binding\":\"shm\"", 1, "an instance has an unknown binding"},
        {"\"shm-size\":100", "\"shm-size\":-1", 1, "a memory size is negative"}, {"\"shm-size\":100", "\"shm-size\":\"100\"", 1, "a memory size is text"}, {"\"control-asil-b-shm-size\":101", "\"control-asil-b-shm-size\":true", 1, "a memory size is a flag"}, {"\"control-qm-shm-size\":102", "\"control-qm-shm-size\":[]", 1, "a memory size is a list"},
        {"\"permission-checks\":\"strict\"", "\"permission-checks\":\"Strict\"", 1, "the permission checks are unknown"}, {"\"permission-checks\":\"strict\"", "\"permission-checks\":true", 1, "the permission checks are a flag"},
        {"{\"eventName\":\"e1\",\"numberOf", "{\"numberOf", 1, "a deployed event has no name"}, {"\"eventName\":\"e2\"}", "\"eventName\":\"e1\"}", 1, "a deployed event is given twice"}, {"\"numberOfSampleSlots\":5", "\"numberOfSampleSlots\":65536", 1, "the slots of an event are too many"}, {"\"numberOfSampleSlots\":5", "\"numberOfSampleSlots\":-5", 1, "the slots of an event are negative"}, {"\"numberOfSampleSlots\":5", "\"numberOfSampleSlots\":5,\"maxSamples\":5", 1, "an event gives its slots twice"}, {"\"numberOfSampleSlots\":5", "\"maxSamples\":65536", 1, "the deprecated slots of an event are too many"},
        {"\"maxSubscribers\":3", "\"maxSubscribers\":256", 1, "the subscribers of an event are too many"}, {"\"maxSubscribers\":3", "\"maxSubscribers\":3,\"maxConcurrentAllocations\":1", 1, "an event gives concurrent allocations"}, {"\"enforceMaxSamples\":true", "\"enforceMaxSamples\":1", 1, "a flag is a number"}, {"\"numberOfIpcTracingSlots\":1", "\"numberOfIpcTracingSlots\":256", 1, "the tracing slots of an event are too many"}, {"\"numberOfIpcTracingSlots\":1", "\"numberOfIpcTracingSlots\":-1", 1, "the tracing slots of an event are negative"},
        {"{\"fieldName\":\"f1\",\"numberOf", "{\"numberOf", 1, "a deployed field has no name"}, {"\"fieldName\":\"f2\"}", "\"fieldName\":\"f1\"}", 1, "a deployed field is given twice"}, {"\"numberOfSampleSlots\":6", "\"numberOfSampleSlots\":65536", 1, "the slots of a field are too many"}, {"\"maxSubscribers\":4", "\"maxSubscribers\":256", 1, "the subscribers of a field are too many"}, {"\"maxSubscribers\":4", "\"maxSubscribers\":4,\"maxConcurrentAllocations\":1", 1, "a field gives concurrent allocations"}, {"\"numberOfIpcTracingSlots\":2", "\"numberOfIpcTracingSlots\":256", 1, "the tracing slots of a field are too many"}, {"\"useGetIfAvailable\":true", "\"useGetIfAvailable\":\"true\"", 1, "a getter flag is text"}, {"\"useSetIfAvailable\":true", "\"useSetIfAvailable\":0", 1, "a setter flag is a number"},
        {"{\"methodName\":\"m1\",\"queueSize\"", "{\"queueSize\"", 1, "a deployed method has no name"}, {"\"methodName\":\"m2\"}", "\"methodName\":\"m1\"}", 1, "a deployed method is given twice"}, {"\"queueSize\":7", "\"queueSize\":256", 1, "a queue is too large"}, {"\"queueSize\":7", "\"queueSize\":-1", 1, "a queue size is negative"},
        {"\"allowedConsumer\":{\"QM\":[1],\"B\":[2]}", "\"allowedConsumer\":{\"QM\":[1],\"C\":[2]}", 1, "consumers of an unknown quality are allowed"}, {"\"allowedProvider\":{\"QM\":[3],\"B\":[4]}", "\"allowedProvider\":{\"qm\":[3]}", 1, "providers of an unknown quality are allowed"}, {"\"allowedConsumer\":{\"QM\":[1]", "\"allowedConsumer\":{\"QM\":1", 1, "allowed consumers are no list"}, {"\"QM\":[3]", "\"QM\":[-3]", 1, "an allowed user is negative"}, {"\"QM\":[3]", "\"QM\":[\"root\"]", 1, "an allowed user is text"}, {"\"B\":[4]", "\"B\":[4294967296]", 1, "an allowed user is too large"},
        {"\"applicationID\":33", "\"applicationID\":4294967296", 1, "the application id is too large"}, {"\"applicationID\":33", "\"applicationID\":-1", 1, "the application id is negative"}, {"\"QM-receiver\":8", "\"QM-receiver\":\"8\"", 1, "a queue size is text"}, {"\"B-receiver\":9", "\"B-receiver\":2147483648", 1, "a queue size is too large"}, {"\"B-sender\":11", "\"B-sender\":true", 1, "a queue size is a flag"}, {"\"SIMULATION\"", "\"ESTIMATION\"", 1, "the memory size calculation mode is unknown"}, {"\"SIMULATION\"", "1", 1, "the memory size calculation mode is a number"}, {"\"global\":{\"asil-level\":\"B\"", "\"global\":{\"asil-level\":\"\"", 1, "the quality of the process is empty"},
        {"\"enable\":true", "\"enable\":\"true\"", 1, "a tracing flag is text"}, {",\"applicationInstanceID\":\"x\"", "", 1, "tracing has no application instance id"}, {"\"applicationInstanceID\":\"x\"", "\"applicationInstanceID\":1", 1, "the tracing application instance id is a number"}, {"\"traceFilterConfigPath\":\"./p\"", "\"traceFilterConfigPath\":1", 1, "the filter path is a number"},
    };
    mc::explore("single violations", mc::Config{0}, [] {
        int k = mc::choose(static_cast<int>(vs.size()) + 1, "violation");
        std::string t = kBase;
        if (k == 0)
        {
            auto c = parse(t);
            MC_CHECK(c.Validate().has_value(), "the base document is invalid"); MC_CHECK(c.GetNumberOfServiceInstances() == 2 && c.GetNumberOfServiceTypes() == 1, "the base document is misread");
            MC_CHECK(c.HasLolaServiceDeployment().value(), "no shared memory service");
            return;
        }
        const Viol& v = vs[k - 1]; std::size_t p = 0;
        for (int i = 0; i < v.nth; ++i) { p = t.find(v.from, i ? p + 1 : 0); if (p == std::string::npos) { mc::violation(std::string("HARNESS: text not found: ") + v.from); return; } }
        t.replace(p, std::string(v.from).size(), v.to);
        refused(t, v.what);
    });
}
// ---- cross checks, users, merging ----
std::string simple_type(int i, bool with_elements = true) { return type_doc("/t" + std::to_string(i), kVersion, ",\"serviceId\":" + std::to_string(i) + (with_elements ? ",\"events\":[{\"eventName\":\"e\",\"eventId\":1}],\"fields\":[{\"fieldName\":\"f\",\"fieldId\":2}]" : "")); }
void validate_case()
{
    mc::explore("cross checks", mc::Config{0}, [] {
        bool pb = mc::choose(2, "process B"); std::vector<std::string> insts; bool bad_asil = false, bad_type = false, bad_event = false, bad_field = false;
        int n = mc::choose(3, "instances");
        for (int i = 0; i < n; ++i)
        {
            bool b = mc::choose(2, "instance B"); int ty = mc::choose(3, "type"), ev = mc::choose(3, "event"), fi = mc::choose(3, "field"); bool ver = mc::choose(2, "version");
            Obj o; o.kv("asil-level", q(b ? "B" : "QM")).kv("binding", q("SHM"));
            if (ev) o.kv("events", "[{\"eventName\":" + q(ev == 1 ? "e" : "f") + "}]");
            if (fi) o.kv("fields", "[{\"fieldName\":" + q(fi == 1 ? "f" : "e") + "}]");
            insts.push_back(inst_doc("i" + std::to_string(i), "/t" + std::to_string(ty), ver ? "{\"major\":1,\"minor\":1}" : kVersion, o.str()));
            bad_asil |= b && !pb; bool bt = ty == 2 || ver; bad_type |= bt; if (!bt) { bad_event |= ev == 2 || (ev == 1 && ty == 1); bad_field |= fi == 2 || (fi == 1 && ty == 1); }
        }
        auto c = parse(doc({simple_type(0), simple_type(1, false)}, insts, pb ? ",\"global\":{\"asil-level\":\"B\"}" : ""));
        auto r = c.Validate();
        bool bad = bad_asil || bad_type || bad_event || bad_field;
        MC_CHECK(r.has_value() == !bad, "validation says " << r.has_value() << " (levels " << bad_asil << " types " << bad_type << " events " << bad_event << " fields " << bad_field << ")");
        if (r.has_value() || !bad) return;
        bool ok = (bad_asil && r.error() == configuration_errc::configuration_invalid_asil_configuration) || (bad_type && r.error() == configuration_errc::configuration_invalid_type_reference_from_instance)
               || (bad_event && r.error() == configuration_errc::configuration_invalid_event_reference_from_instance) || (bad_field && r.error() == configuration_errc::configuration_invalid_field_reference_from_instance);
        MC_CHECK(ok, "validation gives a reason that does not apply");
    });
    mc::explore("allowed users", mc::Config{0}, [] {
        int n = mc::choose(3, "instances"); std::vector<std::string> insts; std::vector<Users> us;
        for (int i = 0; i < n; ++i)
        {
            auto co = pick_users("consumers"), pr = pick_users("providers"); us.push_back(co); us.push_back(pr);
            Obj o; o.kv("asil-level", q("QM")).kv("binding", q("SHM")).kv("allowedConsumer", co.text).kv("allowedProvider", pr.text);
            insts.push_back(inst_doc("i" + std::to_string(i), "/t0", kVersion, o.str()));
        }
        auto c = parse(doc({simple_type(0)}, insts));
        for (auto level : {QualityType::kASIL_QM, QualityType::kASIL_B})
        {
            std::set<uid_t> want; bool all = false;
            for (auto& u : us) { auto it = u.m.find(level); if (it == u.m.end()) continue; if (it->second.empty()) all = true; want.insert(it->second.begin(), it->second.end()); }
            if (all) want.clear();
            MC_CHECK(c.GetAggregatedAllowedUsers(level) == want, "the users allowed at level " << static_cast<int>(level) << " are not those of all instances");
        }
    });
}
// Merging: a pool of small configurations over 3 types and 3 instances is merged in any order.
struct MergeSys : mc::System
{
    std::unique_ptr<Configuration> c; std::set<int> types, insts; bool stopped{false};
    std::vector<std::pair<int, const void*>> refs;   // references handed out earlier stay valid
    static Configuration part(const std::set<int>& t, const std::set<int>& i)
    {
        std::vector<std::string> ts, is;
        for (int x : t) ts.push_back(simple_type(x));
        for (int x : i) is.push_back(inst_doc("i" + std::to_string(x), "/t" + std::to_string(x % 2), kVersion, "{\"asil-level\":\"QM\",\"binding\":\"SHM\",\"instanceId\":" + std::to_string(x) + "}"));
        return parse(doc(ts, is));
    }
    static std::vector<std::pair<std::set<int>, std::set<int>>>& parts()
    {
        static std::vector<std::pair<std::set<int>, std::set<int>>> p{{{}, {}}, {{0}, {}}, {{}, {0}}, {{1}, {1}}, {{2}, {2, 3}}, {{1, 2}, {}}, {{}, {1, 2}}, {{0, 1, 2}, {0, 1, 2, 3}}};
        return p;
    }
    MergeSys(int first) { auto& p = parts()[static_cast<std::size_t>(first)]; c = std::make_unique<Configuration>(part(p.first, p.second)); types = p.first; insts = p.second; note(); }
    void note() { for (int x : types) refs.emplace_back(x, &lola_type(*c, "/t" + std::to_string(x))); for (int x : insts) refs.emplace_back(100 + x, &lola_inst(*c, "i" + std::to_string(x))); }
    bool apply(int op) override
    {
        if (stopped) return false;
        auto n = static_cast<int>(parts().size());
        if (op == n) { c = std::make_unique<Configuration>(Configuration(std::move(*c))); }
        else if (op < n)
        {
            auto& p = parts()[static_cast<std::size_t>(op)]; auto add = part(p.first, p.second);
            bool dt = false, di = false; for (int x : p.first) dt |= types.count(x); for (int x : p.second) di |= insts.count(x);
            auto r = c->MergeServiceEntries(add);
            MC_CHECK(r.has_value() == !(dt || di), "merging says " << r.has_value() << " although duplicates are types " << dt << " instances " << di);
            if (dt || di)
            {
                if (!r.has_value()) MC_CHECK((dt && r.error() == configuration_errc::configuration_merge_duplicate_service_type) || (di && r.error() == configuration_errc::configuration_merge_duplicate_service_instance), "merging names a duplicate that is none");
                stopped = true; return true;   // what a failed merge leaves behind is documented as undefined
            }
            types.insert(p.first.begin(), p.first.end()); insts.insert(p.second.begin(), p.second.end()); note();
            MC_CHECK(add.GetNumberOfServiceTypes() == p.first.size() && add.GetNumberOfServiceInstances() == p.second.size(), "merging changed the merged configuration");
        }
        else
        {   // entries added one by one
            int x = op - n - 1;
            if (x < 3)
            {
                auto d = ServiceTypeDeployment{LolaServiceTypeDeployment{static_cast<std::uint16_t>(x), {{"e", 1}}, {{"f", 2}}}};
                auto id = make_ServiceIdentifierType("/t" + std::to_string(x), 1, 0);
                if (types.count(x)) { MC_CHECK(mc::dies([&] { c->AddServiceTypeDeployment(id, d); }), "a type was added twice"); stopped = true; return true; }
                auto* p = c->AddServiceTypeDeployment(id, d); MC_CHECK(p != nullptr && p == &c->GetServiceTypeDeployment(id)->get(), "the added type is another one"); types.insert(x);
            }
            else
            {
                x -= 3; LolaServiceInstanceDeployment l{LolaServiceInstanceId{static_cast<std::uint16_t>(x)}};
                ServiceInstanceDeployment d{make_ServiceIdentifierType("/t" + std::to_string(x % 2), 1, 0), l, QualityType::kASIL_QM, spec("i" + std::to_string(x))};
                if (insts.count(x)) { MC_CHECK(mc::dies([&] { c->AddServiceInstanceDeployments(spec("i" + std::to_string(x)), d); }), "an instance was added twice"); stopped = true; return true; }
                auto* p = c->AddServiceInstanceDeployments(spec("i" + std::to_string(x)), d); MC_CHECK(p != nullptr && p == &c->GetServiceInstanceDeployment(spec("i" + std::to_string(x)))->get(), "the added instance is another one"); insts.insert(x);
            }
            note();
        }
        check();
        return true;
    }
    void check()
    {
        MC_CHECK(c->GetNumberOfServiceTypes() == types.size() && c->GetNumberOfServiceInstances() == insts.size(), c->GetNumberOfServiceTypes() << " types and " << c->GetNumberOfServiceInstances() << " instances");
        MC_CHECK(c->IsServiceTypesEmpty() == types.empty() && c->IsServiceInstancesEmpty() == insts.empty(), "emptiness");
        std::set<std::string> tn; for (int x : types) tn.insert("/t" + std::to_string(x));
        auto got = c->GetServiceTypeNames(); MC_CHECK((std::set<std::string>(got.begin(), got.end()) == tn), "type names differ after merging");
        for (int x = 0; x < 3; ++x)
        {
            std::string n = "/t" + std::to_string(x);
            MC_CHECK(c->GetServiceTypeDeployment(make_ServiceIdentifierType(n, 1, 0)).has_value() == (types.count(x) == 1), "presence of " << n);
            if (types.count(x)) MC_CHECK(lola_type(*c, n).service_id_ == x, "the id of " << n);
            auto e = c->GetElementNamesOfServiceType(n, ServiceElementType::EVENT); MC_CHECK(e.size() == types.count(x), "the events of " << n);
            std::set<std::string> in; for (int i : insts) if (i % 2 == x) in.insert("i" + std::to_string(i));
            auto gi = c->GetInstancesOfServiceType(n); MC_CHECK((std::set<std::string>(gi.begin(), gi.end()) == in), "the instances of " << n);
        }
        for (int i = 0; i < 4; ++i)
        {
            std::string n = "i" + std::to_string(i);
            MC_CHECK(c->GetServiceInstanceDeployment(spec(n)).has_value() == (insts.count(i) == 1), "presence of " << n);
            if (insts.count(i)) MC_CHECK(lola_inst(*c, n).instance_id_->GetId() == i, "the id of " << n);
        }
        for (auto& r : refs)
            MC_CHECK(r.second == (r.first < 100 ? static_cast<const void*>(&lola_type(*c, "/t" + std::to_string(r.first))) : &lola_inst(*c, "i" + std::to_string(r.first - 100))), "an entry moved after it was handed out");
        MC_CHECK(c->HasLolaServiceDeployment().value() == !types.empty(), "shared memory deployment");
    }
    std::string canon() override { std::string s = stopped ? "X" : ""; for (int x : types) s += "t" + std::to_string(x); for (int x : insts) s += "i" + std::to_string(x); return s + (refs.size() > types.size() + insts.size() ? "r" : ""); }
};
void merge_case(int first)
{
    mc::BfsConfig b; b.max_depth = mc::tier(4, 6);
    int n = static_cast<int>(MergeSys::parts().size());
    mc::bfs(("merging into configuration " + std::to_string(first)).c_str(), b, n + 8, [](int o) { return "op" + std::to_string(o); }, [=] { return std::unique_ptr<mc::System>(new MergeSys(first)); });
}
// Two threads merge different or the same entries while a third looks things up.
void merge_threads(const char* name, std::set<int> t1, std::set<int> i1, std::set<int> t2, std::set<int> i2, int pre)
{
    mc::Config cfg{pre};
    mc::explore(name, cfg, [=] {
        std::unique_ptr<Configuration> a, b;
        alignas(64) static unsigned char at[sizeof(Configuration)];   // a fixed place: the lock of an atomic shared_ptr depends on its address
        struct Drop { void operator()(Configuration* p) const { p->~Configuration(); } };
        std::unique_ptr<Configuration, Drop> c;
        { mc::NoPreempt np; c.reset(new (at) Configuration(MergeSys::part({0}, {0}))); a = std::make_unique<Configuration>(MergeSys::part(t1, i1)); b = std::make_unique<Configuration>(MergeSys::part(t2, i2)); }
        mc::track_plain(c.get(), sizeof(Configuration)); mc::focus(c.get(), sizeof(Configuration));
        bool ok1 = false, ok2 = false;
        mc::spawn([&] { ok1 = c->MergeServiceEntries(*a).has_value(); }, "m1");
        mc::spawn([&] { ok2 = c->MergeServiceEntries(*b).has_value(); }, "m2");
        mc::spawn([&] {
            auto r = c->GetServiceTypeDeployment(make_ServiceIdentifierType("/t0", 1, 0)); MC_CHECK(r.has_value(), "an entry that was always there is not found");
            auto n1 = c->GetNumberOfServiceInstances(); auto i = c->GetServiceInstanceDeployment(spec("i0")); auto n2 = c->GetNumberOfServiceInstances();
            MC_CHECK(i.has_value() && n1 >= 1 && n2 >= n1, "the number of instances went from " << n1 << " to " << n2);
        }, "reader");
        mc::join_all();
        mc::NoPreempt np;
        std::set<int> t{0}, i{0}; bool overlap = false;
        for (int x : t1) overlap |= t2.count(x); for (int x : i1) overlap |= i2.count(x);
        MC_CHECK(overlap ? (ok1 != ok2) : (ok1 && ok2), "merging two configurations succeeded " << ok1 << " " << ok2);
        mc::outcome(std::to_string(ok1) + std::to_string(ok2));
        auto add = [&](bool ok, const std::set<int>& a, const std::set<int>& b) { if (ok) { t.insert(a.begin(), a.end()); i.insert(b.begin(), b.end()); } };
        add(ok1, t1, i1); add(ok2, t2, i2);
        for (int x : t) MC_CHECK(c->GetServiceTypeDeployment(make_ServiceIdentifierType("/t" + std::to_string(x), 1, 0)).has_value(), "a merged type is lost");
        for (int x : i) MC_CHECK(c->GetServiceInstanceDeployment(spec("i" + std::to_string(x))).has_value(), "a merged instance is lost");
        if (!overlap) MC_CHECK(c->GetNumberOfServiceTypes() == t.size() && c->GetNumberOfServiceInstances() == i.size(), "numbers differ after merging");
    });
}
}  // namespace

MC_CASE(C01, elements)
{
    elements_case("one event", true, 0); elements_case("one field", true, 1); elements_case("two events", false, 0); elements_case("event and two fields", false, 1);
    methods_case();
}
MC_CASE(C01, sections) { instance_case(); global_case(); tracing_case(); types_case(); }
MC_CASE(C01, rules) { violations_case(); validate_case(); }
MC_CASE(C01, merging)
{
    for (int f : {0, 1, 3, 4}) merge_case(f);
    merge_threads("two threads merge different entries", {1}, {1}, {2}, {2, 3}, mc::tier(2, 3));
    merge_threads("two threads merge the same types", {1}, {}, {1, 2}, {}, mc::tier(2, 3));
    merge_threads("two threads merge instances only", {}, {1}, {}, {2}, mc::tier(2, 3));
}
